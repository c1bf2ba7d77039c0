----------------------------- MODULE HwpLayout -----------------------------
(* The documented layout of every record of a document, by format version     *)
(* (HWP 5.0 file format; tables of revision 1.2), as data.                    *)
(* Versions are numbers: 5.0.1.7 is 5000107.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

P(n, s) == [k |-> "prim", n |-> n, size |-> s]
UINT8 == P("u", 1)    INT8 == P("i", 1)     UINT16 == P("u", 2)   INT16 == P("i", 2)
UINT32 == P("u", 4)   INT32 == P("i", 4)    DOUBLE == P("f", 8)   COLORREF == P("color", 4)
CHID == P("chid", 4)  WCHAR == P("wchar", 2)  BINID == P("binid", 2)  Hex(n) == P("hex", n)
STR == [k |-> "str"]
TEXT == [k |-> "text"]
Struct(n, fs) == [k |-> "struct", n |-> n, fs |-> fs]
Arr(n, t) == [k |-> "arr", n |-> n, t |-> t]
NArr(n, t) == [k |-> "narr", n |-> n, t |-> t]
XArr(r, t) == [k |-> "xarr", ref |-> r, t |-> t]
Sel(r, alts) == [k |-> "sel", ref |-> r, alts |-> alts]
(* bits lo..hi of an earlier field, plus d; or a field of the parent record *)
Of(f, lo, hi, d) == [f |-> f, lo |-> lo, hi |-> hi, plus |-> d, parent |-> FALSE]
OfParent(f) == [f |-> f, lo |-> 0, hi |-> 15, plus |-> 0, parent |-> TRUE]

(* a field: name, type, first version that has it, conditions, values to explore *)
F(n, t) == [name |-> n, t |-> t, ver |-> 0, cond |-> <<>>, vals |-> {}]
Since(v, f) == [f EXCEPT !.ver = v]
When(c, f) == [f EXCEPT !.cond = c]
Vals(s, f) == [f EXCEPT !.vals = s]
Bits(f, lo, hi, v) == << [c |-> "bits", f |-> f, lo |-> lo, hi |-> hi, v |-> v] >>
Chids == << "$con", "$rec", "$lin", "$pic", "zzzz", "eqed", "gso ", "tbl ", "bokm", "cold", "tdut", "head", "foot", "tcmt",
  "idxm", "fn  ", "en  ", "atno", "nwno", "pghd", "pgnp", "pgct", "secd", "tcps", "%unk", "%dte", "%ddt", "%pat", "%bmk", "%mmg", "%xrf", "%fmu", "%clk", "%smr", "%usr", "%hlk", "%sig", "%%*d", "%%*a", "%%*C", "%%*S", "%%*T", "%%*P", "%%*L", "%%*c", "%%*h", "%%*A", "%%*i", "%%*t", "%%*r", "%%*l", "%%*n", "%%*e", "%spl", "%%mr", "%%me", "%cpr" >>
Code(c) == CHOOSE i \in 1 .. Len(Chids) : Chids[i] = c
Codes(s) == { Code(c) : c \in s }
Is(c) == << [c |-> "is", f |-> "chid", lo |-> 0, hi |-> 0, v |-> Code(c)] >>
Parent(c) == << [c |-> "parent", f |-> c, lo |-> 0, hi |-> 0, v |-> 0] >>

FlagTable ==
  "BinData_flags" :> [size |-> 2, g |-> << <<"storage", 0, 3, "BinData_StorageType">>, <<"compression", 4, 5, "BinData_CompressionType">>, <<"access", 8, 9, "BinData_AccessState">> >>] @@
  "FaceName_flags" :> [size |-> 1, g |-> << <<"font_file_type", 0, 1, "FaceName_FontFileType">>, <<"default", 5, 5, "">>, <<"metric", 6, 6, "">>, <<"alternate", 7, 7, "">> >>] @@
  "BorderFill_borderflags" :> [size |-> 2, g |-> << <<"effect_3d", 0, 0, "">>, <<"effect_shadow", 1, 1, "">>, <<"slash", 2, 4, "">>, <<"backslash", 5, 6, "">> >>] @@
  "Border_stroke_flags" :> [size |-> 1, g |-> << <<"stroke_type", 0, 4, "Border_StrokeEnum">> >>] @@
  "Border_width_flags" :> [size |-> 1, g |-> << <<"width", 0, 4, "Border_WidthEnum">> >>] @@
  "BorderFill_fillflags" :> [size |-> 4, g |-> << <<"colorpattern", 0, 0, "">>, <<"image", 1, 1, "">>, <<"gradation", 2, 2, "">> >>] @@
  "FillColorPattern_pattern_type_flags" :> [size |-> 4, g |-> << <<"pattern_type", 0, 7, "FillColorPattern_PatternTypeEnum">> >>] @@
  "FillGradation_type" :> [size |-> 1, g |-> << <<"gradation_type", 0, 8, "E7">> >>] @@
  "FillImage_flags" :> [size |-> 1, g |-> << <<"fillimage_type", 0, 16, "FillImage_FillImageEnum">> >>] @@
  "FillImage_effect" :> [size |-> 1, g |-> << <<"effect_type", 0, 8, "FillImage_EffectEnum">> >>] @@
  "CharShape_charshapeflags" :> [size |-> 4, g |-> << <<"italic", 0, 0, "">>, <<"bold", 1, 1, "">>, <<"underline", 2, 3, "CharShape_Underline">>, <<"underline_style", 4, 7, "CharShape_UnderlineStyle">>, <<"outline", 8, 10, "">>, <<"shadow", 11, 13, "">> >>] @@
  "TabDef_flags" :> [size |-> 4, g |-> << <<"autotab_left", 0, 0, "">>, <<"autotab_right", 1, 1, "">> >>] @@
  "Tab_flags" :> [size |-> 4, g |-> << <<"kind", 0, 7, "Tab_Kind">>, <<"fill_type", 8, 15, "">> >>] @@
  "NumberingLevel_flags" :> [size |-> 4, g |-> << <<"align", 0, 1, "Numbering_Align">>, <<"auto_width", 2, 2, "">>, <<"auto_indent", 3, 3, "">>, <<"space_type", 4, 4, "Numbering_DistanceType">> >>] @@
  "Bullet_flags" :> [size |-> 4, g |-> << <<"align", 0, 1, "E15">>, <<"auto_indent", 3, 3, "">> >>] @@
  "ParaShape_parashapeflags" :> [size |-> 4, g |-> << <<"linespacing_type", 0, 1, "ParaShape_LineSpacingType">>, <<"align", 2, 4, "ParaShape_Align">>, <<"linebreak_alphabet", 5, 6, "ParaShape_LineBreakAlphabet">>, <<"linebreak_hangul", 7, 7, "ParaShape_LineBreakHangul">>, <<"use_paper_grid", 8, 8, "">>, <<"minimum_space", 9, 15, "">>, <<"protect_single_line", 16, 16, "">>, <<"with_next_paragraph", 17, 17, "">>, <<"protect", 18, 18, "">>, <<"start_new_page", 19, 19, "">>, <<"valign", 20, 21, "ParaShape_VAlign">>, <<"lineheight_along_fontsize", 22, 22, "">>, <<"head_shape", 23, 24, "ParaShape_HeadShape">>, <<"level", 25, 27, "">>, <<"linked_border", 28, 28, "">>, <<"ignore_margin", 29, 29, "">>, <<"tail_shape", 30, 30, "">> >>] @@
  "ParaShape_flags2" :> [size |-> 4, g |-> << <<"in_single_line", 0, 1, "">>, <<"reserved", 2, 3, "">>, <<"autospace_alphabet", 4, 4, "">>, <<"autospace_number", 5, 5, "">> >>] @@
  "Style_flags" :> [size |-> 1, g |-> << <<"kind", 0, 1, "Style_Kind">> >>] @@
  "CompatibleDocument_flags" :> [size |-> 4, g |-> << <<"target", 0, 1, "">> >>] @@
  "Paragraph_text" :> [size |-> 4, g |-> << <<"chars", 0, 30, "">>, <<"unknown", 31, 31, "">> >>] @@
  "Paragraph_controlmask" :> [size |-> 4, g |-> << <<"unknown1", 2, 2, "">>, <<"control", 11, 11, "">>, <<"new_number", 21, 21, "">> >>] @@
  "Paragraph_split" :> [size |-> 1, g |-> << <<"new_section", 0, 0, "">>, <<"new_columnsdef", 1, 1, "">>, <<"new_page", 2, 2, "">>, <<"new_column", 3, 3, "">> >>] @@
  "LineSeg_lineseg_flags" :> [size |-> 4, g |-> << <<"line_head", 17, 17, "">>, <<"line_tail", 18, 18, "">>, <<"indented", 20, 20, "">>, <<"bullet", 21, 21, "">> >>] @@
  "RangeTag_tag" :> [size |-> 4, g |-> << <<"data", 0, 23, "">>, <<"kind", 24, 31, "">> >>] @@
  "ListHeader_listflags" :> [size |-> 4, g |-> << <<"textdirection", 0, 2, "">>, <<"linebreak", 3, 4, "">>, <<"valign", 5, 6, "ListHeader_VAlign">> >>] @@
  "PageDef_attr" :> [size |-> 4, g |-> << <<"orientation", 0, 0, "PageDef_Orientation">>, <<"bookbinding", 1, 2, "PageDef_BookBinding">> >>] @@
  "FootnoteShape_flags" :> [size |-> 4, g |-> <<  >>] @@
  "PageBorderFill_flags" :> [size |-> 4, g |-> << <<"relative_to", 0, 0, "PageBorderFill_RelativeTo">>, <<"include_header", 1, 1, "">>, <<"include_footer", 2, 2, "">>, <<"fill", 3, 4, "PageBorderFill_FillArea">> >>] @@
  "ShapeComponent_flags" :> [size |-> 4, g |-> << <<"flip", 0, 0, "">> >>] @@
  "BorderLine_flags" :> [size |-> 4, g |-> << <<"stroke", 0, 5, "Border_StrokeEnum">>, <<"line_end", 6, 9, "BorderLine_LineEnd">>, <<"arrow_start", 10, 15, "BorderLine_ArrowShape">>, <<"arrow_end", 16, 21, "BorderLine_ArrowShape">>, <<"arrow_start_size", 22, 25, "BorderLine_ArrowSize">>, <<"arrow_end_size", 26, 29, "BorderLine_ArrowSize">>, <<"arrow_start_fill", 30, 30, "">>, <<"arrow_end_fill", 31, 31, "">> >>] @@
  "ShapeComponent_fill_flags" :> [size |-> 2, g |-> << <<"fill_colorpattern", 8, 8, "">>, <<"fill_image", 9, 9, "">>, <<"fill_gradation", 10, 10, "">> >>] @@
  "TableBody_flags" :> [size |-> 4, g |-> << <<"split_page", 0, 1, "TableBody_Split">>, <<"repeat_header", 2, 2, "">> >>] @@
  "ShapeEllipse_flags" :> [size |-> 4, g |-> << <<"arc_recalc_required", 0, 0, "">>, <<"arc", 1, 1, "">>, <<"arc_kind", 2, 9, "">> >>] @@
  "ShapeOLE_flags" :> [size |-> 4, g |-> << <<"dvaspect", 0, 7, "">>, <<"moniker", 8, 8, "">>, <<"baseline", 9, 15, "">> >>] @@
  "ColumnsDef_flags" :> [size |-> 2, g |-> << <<"kind", 0, 1, "ColumnsDef_Kind">>, <<"count", 2, 9, "">>, <<"direction", 10, 11, "ColumnsDef_Direction">>, <<"same_widths", 12, 12, "">> >>] @@
  "Dutmal_position_flags" :> [size |-> 4, g |-> << <<"position", 0, 31, "Dutmal_Position">> >>] @@
  "Dutmal_align_flags" :> [size |-> 4, g |-> << <<"align", 0, 31, "ParaShape_Align">> >>] @@
  "Field_flags" :> [size |-> 4, g |-> << <<"editableInReadOnly", 0, 0, "">>, <<"visitedType", 11, 14, "">>, <<"modified", 15, 15, "">> >>] @@
  "CommonControl_flags" :> [size |-> 4, g |-> << <<"inline", 0, 0, "">>, <<"affect_line_spacing", 2, 2, "">>, <<"vrelto", 3, 4, "CommonControl_VRelTo">>, <<"valign", 5, 7, "ListHeader_VAlign">>, <<"hrelto", 8, 9, "CommonControl_HRelTo">>, <<"halign", 10, 12, "CommonControl_HAlign">>, <<"restrict_in_page", 13, 13, "">>, <<"overlap_others", 14, 14, "">>, <<"width_relto", 15, 17, "CommonControl_WidthRelTo">>, <<"height_relto", 18, 19, "CommonControl_HeightRelTo">>, <<"protect_size_when_vrelto_paragraph", 20, 20, "">>, <<"flow", 21, 23, "CommonControl_Flow">>, <<"text_side", 24, 25, "CommonControl_TextSide">>, <<"number_category", 26, 27, "CommonControl_NumberCategory">> >>] @@
  "HeaderFooter_flags" :> [size |-> 4, g |-> << <<"places", 0, 1, "HeaderFooter_Places">> >>] @@
  "NumberingControl_flags" :> [size |-> 4, g |-> << <<"kind", 0, 3, "NumberingControl_Kind">>, <<"footnoteshape", 4, 11, "">>, <<"superscript", 12, 12, "">> >>] @@
  "PageHide_flags" :> [size |-> 4, g |-> << <<"header", 0, 0, "">>, <<"footer", 1, 1, "">>, <<"basepage", 2, 2, "">>, <<"pageborder", 3, 3, "">>, <<"pagefill", 4, 4, "">>, <<"pagenumber", 5, 5, "">> >>] @@
  "PageNumberPosition_flags" :> [size |-> 4, g |-> << <<"shape", 0, 7, "">>, <<"position", 8, 11, "PageNumberPosition_Position">> >>] @@
  "PageOddEven_flags" :> [size |-> 4, g |-> << <<"pages", 0, 1, "HeaderFooter_Places">> >>] @@
  "SectionDef_flags" :> [size |-> 4, g |-> << <<"hide_header", 0, 0, "">>, <<"hide_footer", 1, 1, "">>, <<"hide_page", 2, 2, "">>, <<"hide_border", 3, 3, "">>, <<"hide_background", 4, 4, "">>, <<"hide_pagenumber", 5, 5, "">>, <<"show_border_on_first_page_only", 8, 8, "">>, <<"show_background_on_first_page_only", 9, 9, "">>, <<"text_direction", 16, 18, "">>, <<"hide_blank_line", 19, 19, "">>, <<"pagenum_on_split_section", 20, 21, "">>, <<"squared_manuscript_paper", 22, 22, "">> >>] @@
  "TableCaption_flags" :> [size |-> 4, g |-> << <<"position", 0, 1, "PageDef_BookBinding">>, <<"expand_to_margin", 2, 2, "">> >>]
EnumTable ==
  "BinData_StorageType" :> << <<0, "LINK">>, <<1, "EMBEDDING">>, <<2, "STORAGE">> >> @@
  "BinData_CompressionType" :> << <<0, "STORAGE_DEFAULT">>, <<1, "YES">>, <<2, "NO">> >> @@
  "BinData_AccessState" :> << <<0, "NEVER">>, <<1, "OK">>, <<2, "FAILED">>, <<3, "FAILED_IGNORED">> >> @@
  "FaceName_FontFileType" :> << <<0, "UNKNOWN">>, <<1, "TTF">>, <<2, "HFT">> >> @@
  "Border_StrokeEnum" :> << <<0, "none">>, <<1, "solid">>, <<2, "dashed">>, <<3, "dotted">>, <<4, "dash-dot">>, <<5, "dash-dot-dot">>, <<6, "long-dash">>, <<7, "large-dot">>, <<8, "double">>, <<9, "double-2">>, <<10, "double-3">>, <<11, "triple">>, <<12, "wave">>, <<13, "double-wave">>, <<14, "inset">>, <<15, "outset">>, <<16, "groove">>, <<17, "ridge">> >> @@
  "Border_WidthEnum" :> << <<0, "0.1mm">>, <<1, "0.12mm">>, <<2, "0.15mm">>, <<3, "0.2mm">>, <<4, "0.25mm">>, <<5, "0.3mm">>, <<6, "0.4mm">>, <<7, "0.5mm">>, <<8, "0.6mm">>, <<9, "0.7mm">>, <<10, "1.0mm">>, <<11, "1.5mm">>, <<12, "2.0mm">>, <<13, "3.0mm">>, <<14, "4.0mm">>, <<15, "5.0mm">> >> @@
  "FillColorPattern_PatternTypeEnum" :> << <<0, "HORIZONTAL">>, <<1, "VERTICAL">>, <<2, "BACKSLASH">>, <<3, "SLASH">>, <<4, "GRID">>, <<5, "CROSS">>, <<255, "NONE">> >> @@
  "E7" :> << <<1, "LINEAR">>, <<2, "CIRCULAR">>, <<3, "CONICAL">>, <<4, "RECTANGULAR">> >> @@
  "FillImage_FillImageEnum" :> << <<0, "TILE_ALL">>, <<1, "TILE_HORIZONTAL_TOP">>, <<2, "TILE_HORIZONTAL_BOTTOM">>, <<3, "TILE_VERTICAL_LEFT">>, <<4, "TILE_VERTICAL_RIGHT">>, <<5, "RESIZE">>, <<6, "CENTER">>, <<7, "CENTER_TOP">>, <<8, "CENTER_BOTTOM">>, <<9, "LEFT_MIDDLE">>, <<10, "LEFT_TOP">>, <<11, "LEFT_BOTTOM">>, <<12, "RIGHT_MIDDLE">>, <<13, "RIGHT_TOP">>, <<14, "RIGHT_BOTTOM">>, <<15, "NONE">> >> @@
  "FillImage_EffectEnum" :> << <<0, "REAL_PIC">>, <<1, "GRAY_SCALE">>, <<2, "BLACK_WHITE">>, <<3, "PATTERN8x8">> >> @@
  "CharShape_Underline" :> << <<0, "NONE">>, <<1, "UNDERLINE">>, <<2, "LINE_THROUGH">>, <<3, "OVERLINE">> >> @@
  "CharShape_UnderlineStyle" :> << <<0, "SOLID">>, <<1, "DASHED">>, <<2, "DOTTED">>, <<3, "DASH_DOT">>, <<4, "DASH_DOT_DOT">>, <<5, "LONG_DASHED">>, <<6, "LARGE_DOTTED">>, <<7, "DOUBLE">>, <<8, "LOWER_WEIGHTED">>, <<9, "UPPER_WEIGHTED">>, <<10, "MIDDLE_WEIGHTED">> >> @@
  "Tab_Kind" :> << <<0, "LEFT">>, <<1, "RIGHT">>, <<2, "CENTER">>, <<3, "FLOAT">> >> @@
  "Numbering_Align" :> << <<0, "LEFT">>, <<1, "CENTER">>, <<2, "RIGHT">>, <<3, "UNKNOWN">> >> @@
  "Numbering_DistanceType" :> << <<0, "RATIO">>, <<1, "VALUE">> >> @@
  "E15" :> << <<0, "LEFT">>, <<1, "CENTER">>, <<2, "RIGHT">> >> @@
  "ParaShape_LineSpacingType" :> << <<0, "RATIO">>, <<1, "FIXED">>, <<2, "SPACEONLY">>, <<3, "MINIMUM">> >> @@
  "ParaShape_Align" :> << <<0, "BOTH">>, <<1, "LEFT">>, <<2, "RIGHT">>, <<3, "CENTER">>, <<4, "DISTRIBUTE">>, <<5, "DISTRIBUTE_SPACE">> >> @@
  "ParaShape_LineBreakAlphabet" :> << <<0, "WORD">>, <<1, "HYPHEN">>, <<2, "CHAR">> >> @@
  "ParaShape_LineBreakHangul" :> << <<0, "WORD">>, <<1, "CHAR">> >> @@
  "ParaShape_VAlign" :> << <<0, "FONT">>, <<1, "TOP">>, <<2, "CENTER">>, <<3, "BOTTOM">> >> @@
  "ParaShape_HeadShape" :> << <<0, "NONE">>, <<1, "OUTLINE">>, <<2, "NUMBER">>, <<3, "BULLET">> >> @@
  "Style_Kind" :> << <<0, "PARAGRAPH">>, <<1, "CHAR">> >> @@
  "ListHeader_VAlign" :> << <<0, "TOP">>, <<1, "MIDDLE">>, <<2, "BOTTOM">> >> @@
  "PageDef_Orientation" :> << <<0, "PORTRAIT">>, <<1, "LANDSCAPE">> >> @@
  "PageDef_BookBinding" :> << <<0, "LEFT">>, <<1, "RIGHT">>, <<2, "TOP">>, <<3, "BOTTOM">> >> @@
  "PageBorderFill_RelativeTo" :> << <<0, "BODY">>, <<1, "PAPER">> >> @@
  "PageBorderFill_FillArea" :> << <<0, "PAPER">>, <<1, "PAGE">>, <<2, "BORDER">> >> @@
  "BorderLine_LineEnd" :> << <<0, "round">>, <<1, "flat">> >> @@
  "BorderLine_ArrowShape" :> << <<0, "none">>, <<1, "arrow">>, <<2, "arrow2">>, <<3, "diamond">>, <<4, "circle">>, <<5, "rect">>, <<6, "diamondfilled">>, <<7, "disc">>, <<8, "rectfilled">> >> @@
  "BorderLine_ArrowSize" :> << <<0, "smallest">>, <<1, "smaller">>, <<2, "small">>, <<3, "abitsmall">>, <<4, "normal">>, <<5, "abitlarge">>, <<6, "large">>, <<7, "larger">>, <<8, "largest">> >> @@
  "TableBody_Split" :> << <<0, "NONE">>, <<1, "BY_CELL">>, <<2, "SPLIT">> >> @@
  "ColumnsDef_Kind" :> << <<0, "normal">>, <<1, "distribute">>, <<2, "parallel">> >> @@
  "ColumnsDef_Direction" :> << <<0, "l2r">>, <<1, "r2l">>, <<2, "both">> >> @@
  "Dutmal_Position" :> << <<0, "ABOVE">>, <<1, "BELOW">>, <<2, "CENTER">> >> @@
  "CommonControl_VRelTo" :> << <<0, "PAPER">>, <<1, "PAGE">>, <<2, "PARAGRAPH">> >> @@
  "CommonControl_HRelTo" :> << <<0, "PAPER">>, <<1, "PAGE">>, <<2, "COLUMN">>, <<3, "PARAGRAPH">> >> @@
  "CommonControl_HAlign" :> << <<0, "LEFT">>, <<1, "CENTER">>, <<2, "RIGHT">>, <<3, "INSIDE">>, <<4, "OUTSIDE">> >> @@
  "CommonControl_WidthRelTo" :> << <<0, "PAPER">>, <<1, "PAGE">>, <<2, "COLUMN">>, <<3, "PARAGRAPH">>, <<4, "ABSOLUTE">> >> @@
  "CommonControl_HeightRelTo" :> << <<0, "PAPER">>, <<1, "PAGE">>, <<2, "ABSOLUTE">> >> @@
  "CommonControl_Flow" :> << <<0, "FLOAT">>, <<1, "BLOCK">>, <<2, "BACK">>, <<3, "FRONT">> >> @@
  "CommonControl_TextSide" :> << <<0, "BOTH">>, <<1, "LEFT">>, <<2, "RIGHT">>, <<3, "LARGER">> >> @@
  "CommonControl_NumberCategory" :> << <<0, "NONE">>, <<1, "FIGURE">>, <<2, "TABLE">>, <<3, "EQUATION">> >> @@
  "HeaderFooter_Places" :> << <<0, "BOTH_PAGES">>, <<1, "EVEN_PAGE">>, <<2, "ODD_PAGE">> >> @@
  "NumberingControl_Kind" :> << <<0, "PAGE">>, <<1, "FOOTNOTE">>, <<2, "ENDNOTE">>, <<3, "PICTURE">>, <<4, "TABLE">>, <<5, "EQUATION">>, <<6, "UNKNOWN6">> >> @@
  "PageNumberPosition_Position" :> << <<0, "NONE">>, <<1, "TOP_LEFT">>, <<2, "TOP_CENTER">>, <<3, "TOP_RIGHT">>, <<4, "BOTTOM_LEFT">>, <<5, "BOTTOM_CENTER">>, <<6, "BOTTOM_RIGHT">>, <<7, "OUTSIDE_TOP">>, <<8, "OUTSIDE_BOTTOM">>, <<9, "INSIDE_TOP">>, <<10, "INSIDE_BOTTOM">> >>
Fl(n) == [k |-> "flags", n |-> n, size |-> FlagTable[n].size]
PerLang(n, t) == Struct(n, << F("ko", t), F("en", t), F("cn", t), F("jp", t), F("other", t), F("symbol", t), F("user", t) >>)

--------------------------------------------------------------------------------
(* parts *)
BinDataLink == Struct("BinDataLink", <<
  F("abspath", STR),
  F("relpath", STR) >>)
BinDataEmbedding == Struct("BinDataEmbedding", <<
  F("storage_id", BINID),
  F("ext", STR) >>)
BinDataStorage == Struct("BinDataStorage", <<
  F("storage_id", BINID) >>)
AlternateFont == Struct("AlternateFont", <<
  F("kind", UINT8),
  F("name", STR) >>)
Panose1 == Struct("Panose1", <<
  F("family_type", UINT8),
  F("serif_style", UINT8),
  F("weight", UINT8),
  F("proportion", UINT8),
  F("contrast", UINT8),
  F("stroke_variation", UINT8),
  F("arm_style", UINT8),
  F("letterform", UINT8),
  F("midline", UINT8),
  F("x_height", UINT8) >>)
Border == Struct("Border", <<
  F("stroke_flags", Fl("Border_stroke_flags")),
  F("width_flags", Fl("Border_width_flags")),
  F("color", COLORREF) >>)
FillColorPattern == Struct("FillColorPattern", <<
  F("background_color", COLORREF),
  F("pattern_color", COLORREF),
  F("pattern_type_flags", Fl("FillColorPattern_pattern_type_flags")) >>)
Coord32 == Struct("Coord32", <<
  F("x", UINT32),
  F("y", UINT32) >>)
FillGradation == Struct("FillGradation", <<
  F("type", Fl("FillGradation_type")),
  F("shear", UINT32),
  F("center", Coord32),
  F("blur", UINT32),
  F("colors", NArr(4, COLORREF)) >>)
FillImage == Struct("FillImage", <<
  F("flags", Fl("FillImage_flags")),
  F("brightness", INT8),
  F("contrast", INT8),
  F("effect", Fl("FillImage_effect")),
  F("bindata_id", UINT16) >>)
FontFace == PerLang("FontFace", UINT16)
LetterWidthExpansion == PerLang("LetterWidthExpansion", UINT8)
LetterSpacing == PerLang("LetterSpacing", INT8)
RelativeSize == PerLang("RelativeSize", UINT8)
Position == PerLang("Position", INT8)
ShadowSpace == Struct("ShadowSpace", <<
  F("x", INT8),
  F("y", INT8) >>)
Tab == Struct("Tab", <<
  F("pos", UINT32),
  F("flags", Fl("Tab_flags")) >>)
NumberingLevel == Struct("NumberingLevel", <<
  F("flags", Fl("NumberingLevel_flags")),
  F("width_correction", INT16),
  F("space", UINT16),
  F("charshape_id", INT32),
  F("numbering_format", STR) >>)
LineSeg == Struct("LineSeg", <<
  F("chpos", INT32),
  F("y", INT32),
  F("height", INT32),
  F("height_text", INT32),
  F("height_baseline", INT32),
  F("space_below", INT32),
  F("x", INT32),
  F("width", INT32),
  F("lineseg_flags", Fl("LineSeg_lineseg_flags")) >>)
RangeTag == Struct("RangeTag", <<
  F("start", UINT32),
  F("end", UINT32),
  F("tag", Fl("RangeTag_tag")) >>)
Margin == Struct("Margin", <<
  F("left", INT16),
  F("right", INT16),
  F("top", INT16),
  F("bottom", INT16) >>)
Coord == Struct("Coord", <<
  F("x", INT32),
  F("y", INT32) >>)
Matrix == Struct("Matrix", <<
  F("a", DOUBLE),
  F("c", DOUBLE),
  F("e", DOUBLE),
  F("b", DOUBLE),
  F("d", DOUBLE),
  F("f", DOUBLE) >>)
ScaleRotationMatrix == Struct("ScaleRotationMatrix", <<
  F("scaler", Matrix),
  F("rotator", Matrix) >>)
BorderLine == Struct("BorderLine", <<
  F("color", COLORREF),
  F("width", INT32),
  F("flags", Fl("BorderLine_flags")) >>)
ZoneInfo == Struct("ZoneInfo", <<
  F("starting_column", UINT16),
  F("starting_row", UINT16),
  F("end_column", UINT16),
  F("end_row", UINT16),
  F("borderfill_id", UINT16) >>)
ImageRect == Struct("ImageRect", <<
  F("p0", Coord),
  F("p1", Coord),
  F("p2", Coord),
  F("p3", Coord) >>)
ImageClip == Struct("ImageClip", <<
  F("left", INT32),
  F("top", INT32),
  F("right", INT32),
  F("bottom", INT32) >>)
PictureInfo == Struct("PictureInfo", <<
  F("brightness", INT8),
  F("contrast", INT8),
  F("effect", UINT8),
  F("bindata_id", UINT16) >>)
PictureEffect == Struct("PictureEffect", <<
  F("flags", Fl("FootnoteShape_flags")) >>)
Column0 == Struct("Column0", <<
  F("width", UINT16) >>)
Column == Struct("Column", <<
  F("spacing", UINT16),
  F("width", UINT16) >>)

--------------------------------------------------------------------------------
(* records *)
\* 16
DocumentProperties == <<
  F("section_count", UINT16),
  F("page_startnum", UINT16),
  F("footnote_startnum", UINT16),
  F("endnote_startnum", UINT16),
  F("picture_startnum", UINT16),
  F("table_startnum", UINT16),
  F("math_startnum", UINT16),
  F("list_id", UINT32),
  F("paragraph_id", UINT32),
  F("character_unit_loc_in_paragraph", UINT32) >>
\* 17
IdMappings == <<
  F("bindata", UINT32),
  F("ko_fonts", UINT32),
  F("en_fonts", UINT32),
  F("cn_fonts", UINT32),
  F("jp_fonts", UINT32),
  F("other_fonts", UINT32),
  F("symbol_fonts", UINT32),
  F("user_fonts", UINT32),
  F("borderfills", UINT32),
  F("charshapes", UINT32),
  F("tabdefs", UINT32),
  F("numberings", UINT32),
  F("bullets", UINT32),
  F("parashapes", UINT32),
  F("styles", UINT32),
  Since(5000107, F("memoshapes", UINT32)) >>
\* 18
BinData == <<
  Vals({0, 1, 2, 3, 257, 513, 18}, F("flags", Fl("BinData_flags"))),
  F("bindata", Sel(Of("flags", 0, 3, 0), << <<0, BinDataLink>>, <<1, BinDataEmbedding>>, <<2, BinDataStorage>> >>)) >>
\* 19
FaceName == <<
  Vals({0, 1, 32, 64, 128, 224}, F("flags", Fl("FaceName_flags"))),
  F("name", STR),
  When(Bits("flags", 7, 7, 1), F("alternate_font", AlternateFont)),
  When(Bits("flags", 6, 6, 1), F("panose1", Panose1)),
  When(Bits("flags", 5, 5, 1), F("default_font", STR)) >>
\* 20
BorderFill == <<
  F("borderflags", Fl("BorderFill_borderflags")),
  F("left", Border),
  F("right", Border),
  F("top", Border),
  F("bottom", Border),
  F("diagonal", Border),
  Vals(0 .. 7, F("fillflags", Fl("BorderFill_fillflags"))),
  When(Bits("fillflags", 0, 0, 1), F("fill_colorpattern", FillColorPattern)),
  When(Bits("fillflags", 2, 2, 1), F("fill_gradation", FillGradation)),
  When(Bits("fillflags", 1, 1, 1), F("fill_image", FillImage)),
  When(Bits("fillflags", 2, 2, 1), F("shape", UINT32)),
  When(Bits("fillflags", 2, 2, 1), F("blur_center", UINT8)) >>
\* 21
CharShape == <<
  F("font_face", FontFace),
  F("letter_width_expansion", LetterWidthExpansion),
  F("letter_spacing", LetterSpacing),
  F("relative_size", RelativeSize),
  F("position", Position),
  F("basesize", INT32),
  F("charshapeflags", Fl("CharShape_charshapeflags")),
  F("shadow_space", ShadowSpace),
  F("text_color", COLORREF),
  F("underline_color", COLORREF),
  F("shade_color", COLORREF),
  F("shadow_color", COLORREF) >>
\* 22
TabDef == <<
  F("flags", Fl("TabDef_flags")),
  F("tabs", NArr(4, Tab)) >>
\* 23
Numbering == <<
  F("levels", Arr(7, NumberingLevel)),
  F("starting_number", UINT16),
  Since(5000300, F("unknown", Arr(7, UINT32))) >>
\* 24
Bullet == <<
  F("flags", Fl("Bullet_flags")),
  F("width", INT16),
  F("space", UINT16),
  F("charshape_id", INT32),
  F("char", WCHAR) >>
\* 25
ParaShape == <<
  F("parashapeflags", Fl("ParaShape_parashapeflags")),
  F("doubled_margin_left", INT32),
  F("doubled_margin_right", INT32),
  F("indent", INT32),
  F("doubled_margin_top", INT32),
  F("doubled_margin_bottom", INT32),
  F("linespacing", INT32),
  F("tabdef_id", UINT16),
  F("numbering_bullet_id", UINT16),
  F("borderfill_id", UINT16),
  F("border_left", INT16),
  F("border_right", INT16),
  F("border_top", INT16),
  F("border_bottom", INT16),
  Since(5000107, F("flags2", Fl("ParaShape_flags2"))) >>
\* 26
Style == <<
  F("local_name", STR),
  F("name", STR),
  F("flags", Fl("Style_flags")),
  F("next_style_id", UINT8),
  F("lang_id", INT16),
  F("parashape_id", UINT16),
  F("charshape_id", UINT16),
  F("unknown", UINT16) >>
\* 27
DocData == <<>>
\* 28
DistributeDocData == <<>>
\* 30
CompatibleDocument == <<
  F("flags", Fl("CompatibleDocument_flags")) >>
\* 31
LayoutCompatibility == <<
  F("char", UINT32),
  F("paragraph", UINT32),
  F("section", UINT32),
  F("object", UINT32),
  F("field", UINT32) >>
\* 32
TagModel32 == <<>>
\* 66
Paragraph == <<
  F("text", Fl("Paragraph_text")),
  F("controlmask", Fl("Paragraph_controlmask")),
  F("parashape_id", UINT16),
  F("style_id", UINT8),
  F("split", Fl("Paragraph_split")),
  F("charshapes", UINT16),
  F("rangetags", UINT16),
  F("linesegs", UINT16),
  F("instance_id", UINT32) >>
\* 67
ParaText == <<
  F("chunks", TEXT) >>
\* 68
ParaCharShape == <<
  F("charshapes", XArr(OfParent("charshapes"), Arr(2, UINT32))) >>
\* 69
ParaLineSeg == <<
  F("linesegs", XArr(OfParent("linesegs"), LineSeg)) >>
\* 70
ParaRangeTag == <<
  F("range_tags", XArr(OfParent("rangetags"), RangeTag)) >>
\* 71
Control == <<
  F("chid", CHID) >>
\* 72
ListHeader == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")) >>
\* 73
PageDef == <<
  F("width", UINT32),
  F("height", UINT32),
  F("left_offset", UINT32),
  F("right_offset", UINT32),
  F("top_offset", UINT32),
  F("bottom_offset", UINT32),
  F("header_offset", UINT32),
  F("footer_offset", UINT32),
  F("bookbinding_offset", UINT32),
  F("attr", Fl("PageDef_attr")) >>
\* 74
FootnoteShape == <<
  F("flags", Fl("FootnoteShape_flags")),
  F("usersymbol", WCHAR),
  F("prefix", WCHAR),
  F("suffix", WCHAR),
  F("starting_number", UINT16),
  F("splitter_length", INT16),
  F("splitter_unknown", INT16),
  F("splitter_margin_top", INT16),
  F("splitter_margin_bottom", INT16),
  F("notes_spacing", INT16),
  F("splitter_stroke_type", Fl("Border_stroke_flags")),
  F("splitter_width", Fl("Border_width_flags")),
  F("splitter_color", COLORREF) >>
\* 75
PageBorderFill == <<
  F("flags", Fl("PageBorderFill_flags")),
  F("margin", Margin),
  F("borderfill_id", UINT16) >>
\* 76
ShapeComponent == <<
  When(Parent("gso "), F("chid0", CHID)),
  Vals(Codes({"$con", "$rec", "$lin", "$pic"}), F("chid", CHID)),
  F("x_in_group", INT32),
  F("y_in_group", INT32),
  F("level_in_group", UINT16),
  F("local_version", UINT16),
  F("initial_width", INT32),
  F("initial_height", INT32),
  F("width", INT32),
  F("height", INT32),
  F("flags", Fl("ShapeComponent_flags")),
  F("angle", UINT16),
  F("rotation_center", Coord),
  Vals({0, 1, 2}, F("scalerotations_count", UINT16)),
  F("translation", Matrix),
  F("scalerotations", XArr(Of("scalerotations_count", 0, 15, 0), ScaleRotationMatrix)),
  When(Is("$con"), F("controls", NArr(2, CHID))),
  When(Is("$rec"), F("border", BorderLine)),
  When(Is("$rec"), Vals({0, 256, 512, 1024, 1792}, F("fill_flags", Fl("ShapeComponent_fill_flags")))),
  When(Is("$rec"), F("unknown", UINT16)),
  When(Is("$rec"), F("unknown1", UINT8)),
  When(Is("$rec") \o Bits("fill_flags", 8, 8, 1), F("fill_colorpattern", FillColorPattern)),
  When(Is("$rec") \o Bits("fill_flags", 10, 10, 1), F("fill_gradation", FillGradation)),
  When(Is("$rec") \o Bits("fill_flags", 9, 9, 1), F("fill_image", FillImage)),
  When(Is("$rec"), F("fill_shape", UINT32)),
  When(Is("$rec") \o Bits("fill_flags", 10, 10, 1), F("fill_blur_center", UINT8)),
  When(Is("$rec"), Since(5000204, F("unknown2", Hex(5)))),
  When(Is("$rec"), Since(5000204, F("unknown3", Hex(16)))),
  When(Is("$lin"), F("line", BorderLine)) >>
\* 77
TableBody == <<
  F("flags", Fl("TableBody_flags")),
  Vals({0, 1, 3, 257}, F("rows", UINT16)),
  F("cols", UINT16),
  F("cellspacing", INT16),
  F("padding", Margin),
  F("rowcols", XArr(Of("rows", 0, 15, 0), UINT16)),
  F("borderfill_id", UINT16),
  Since(5000007, F("validZones", NArr(2, ZoneInfo))) >>
\* 78
ShapeLine == <<
  F("p0", Coord),
  F("p1", Coord),
  F("attr", UINT16) >>
\* 79
ShapeRectangle == <<
  F("round", UINT8),
  F("p0", Coord),
  F("p1", Coord),
  F("p2", Coord),
  F("p3", Coord) >>
\* 80
ShapeEllipse == <<
  F("flags", Fl("ShapeEllipse_flags")),
  F("center", Coord),
  F("axis1", Coord),
  F("axis2", Coord),
  F("start1", Coord),
  F("end1", Coord),
  F("start2", Coord),
  F("end2", Coord) >>
\* 81
ShapeArc == <<
  F("center", Coord),
  F("axis1", Coord),
  F("axis2", Coord) >>
\* 82
ShapePolygon == <<
  F("points", NArr(2, Coord)) >>
\* 83
ShapeCurve == <<
  F("points", NArr(2, Coord)) >>
\* 84
ShapeOLE == <<
  F("flags", Fl("ShapeOLE_flags")),
  F("extent_x", INT32),
  F("extent_y", INT32),
  F("storage_id", BINID),
  F("border", BorderLine) >>
\* 85
ShapePicture == <<
  F("border", BorderLine),
  F("rect", ImageRect),
  F("clip", ImageClip),
  F("padding", Margin),
  F("picture", PictureInfo),
  Since(5000202, F("border_transparency", UINT8)),
  Since(5000205, F("instance_id", UINT32)),
  Since(5000304, F("picture_effect", PictureEffect)) >>
\* 86
ShapeContainer == <<>>
\* 87
ControlData == <<>>
\* 88
EqEdit == <<>>
\* 90
ShapeTextArt == <<>>
\* 91
FormObject == <<>>
\* 92
MemoShape == <<>>
\* 93
MemoList == <<>>
\* 94
ForbiddenChar == <<>>
\* 95
ChartData == <<>>
\* 115
ShapeUnknown == <<>>
\* ctl bokm
BookmarkControl == <<
  F("chid", CHID) >>
\* ctl cold
ColumnsDef == <<
  F("chid", CHID),
  Vals({0, 4, 12, 1020, 4096, 4108}, F("flags", Fl("ColumnsDef_flags"))),
  F("spacing", INT16),
  When(Bits("flags", 12, 12, 0), F("column0", Column0)),
  When(Bits("flags", 12, 12, 0), F("columns", XArr(Of("flags", 2, 9, -1), Column))),
  F("attr2", UINT16),
  F("splitter", Border) >>
\* ctl tdut
Dutmal == <<
  F("chid", CHID),
  F("maintext", STR),
  F("subtext", STR),
  F("position-flags", Fl("Dutmal_position_flags")),
  F("fsizeratio", UINT32),
  F("option", UINT32),
  F("stylenumber", UINT32),
  F("align-flags", Fl("Dutmal_align_flags")) >>
\* ctl gso 
GShapeObjectControl == <<
  F("chid", CHID),
  F("flags", Fl("CommonControl_flags")),
  F("y", INT32),
  F("x", INT32),
  F("width", UINT32),
  F("height", UINT32),
  F("z_order", INT16),
  F("unknown1", INT16),
  F("margin", Margin),
  F("instance_id", UINT32),
  Since(5000005, F("unknown2", INT16)),
  Since(5000005, F("description", STR)) >>
\* ctl head
Header == <<
  F("chid", CHID),
  F("flags", Fl("HeaderFooter_flags")) >>
\* ctl foot
Footer == <<
  F("chid", CHID),
  F("flags", Fl("HeaderFooter_flags")) >>
\* ctl tcmt
HiddenComment == <<
  F("chid", CHID) >>
\* ctl idxm
IndexMarker == <<
  F("chid", CHID),
  F("keyword1", STR),
  F("keyword2", STR),
  F("dummy", UINT16) >>
\* ctl fn  
FootNote == <<
  F("chid", CHID),
  F("number", UINT32),
  F("unknown0", UINT32),
  F("unknown1", UINT32),
  Since(5000300, F("unknown2", UINT16)),
  Since(5000300, F("unknown3", UINT16)) >>
\* ctl en  
EndNote == <<
  F("chid", CHID),
  F("number", UINT32),
  F("unknown0", UINT32),
  F("unknown1", UINT32),
  Since(5000300, F("unknown2", UINT16)),
  Since(5000300, F("unknown3", UINT16)) >>
\* ctl atno
AutoNumbering == <<
  F("chid", CHID),
  F("flags", Fl("NumberingControl_flags")),
  F("number", UINT16),
  F("usersymbol", WCHAR),
  F("prefix", WCHAR),
  F("suffix", WCHAR) >>
\* ctl nwno
NewNumbering == <<
  F("chid", CHID),
  F("flags", Fl("NumberingControl_flags")),
  F("number", UINT16) >>
\* ctl pghd
PageHide == <<
  F("chid", CHID),
  F("flags", Fl("PageHide_flags")) >>
\* ctl pgnp
PageNumberPosition == <<
  F("chid", CHID),
  F("flags", Fl("PageNumberPosition_flags")),
  F("usersymbol", WCHAR),
  F("prefix", WCHAR),
  F("suffix", WCHAR),
  F("dash", WCHAR) >>
\* ctl pgct
PageOddEven == <<
  F("chid", CHID),
  F("flags", Fl("PageOddEven_flags")) >>
\* ctl secd
SectionDef == <<
  F("chid", CHID),
  F("flags", Fl("SectionDef_flags")),
  F("columnspacing", INT16),
  F("grid_vertical", INT16),
  F("grid_horizontal", INT16),
  F("defaultTabStops", UINT32),
  F("numbering_shape_id", UINT16),
  F("starting_pagenum", UINT16),
  F("starting_picturenum", UINT16),
  F("starting_tablenum", UINT16),
  F("starting_equationnum", UINT16),
  Since(5000107, F("unknown1", UINT32)),
  Since(5000107, F("unknown2", UINT32)) >>
\* ctl tbl 
TableControl == <<
  F("chid", CHID),
  F("flags", Fl("CommonControl_flags")),
  F("y", INT32),
  F("x", INT32),
  F("width", UINT32),
  F("height", UINT32),
  F("z_order", INT16),
  F("unknown1", INT16),
  F("margin", Margin),
  F("instance_id", UINT32),
  Since(5000005, F("unknown2", INT16)),
  Since(5000005, F("description", STR)) >>
\* ctl tcps
TCPSControl == <<
  F("chid", CHID),
  F("textlength", STR) >>
\* list TableControlFalse
TableCaption == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")),
  F("flags", Fl("TableCaption_flags")),
  F("width", UINT32),
  F("separation", INT16),
  F("max_width", UINT32) >>
\* list TableControlTrue
TableCell == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")),
  F("col", UINT16),
  F("row", UINT16),
  F("colspan", UINT16),
  F("rowspan", UINT16),
  F("width", INT32),
  F("height", INT32),
  F("padding", Margin),
  F("borderfill_id", UINT16),
  F("unknown_width", INT32) >>
\* list GShapeObjectControlFalse
GShapeObjectCaption == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")),
  F("flags", Fl("TableCaption_flags")),
  F("width", UINT32),
  F("separation", INT16),
  F("max_width", UINT32) >>
\* list ShapeComponentFalse
TextboxParagraphList == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")),
  F("padding", Margin),
  F("maxwidth", UINT32) >>
\* list HeaderFalse
HeaderParagraphList == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")),
  F("width", UINT32),
  F("height", UINT32),
  F("textrefsbitmap", UINT8),
  F("numberrefsbitmap", UINT8) >>
\* list FooterFalse
FooterParagraphList == <<
  F("paragraphs", UINT16),
  F("unknown1", UINT16),
  F("listflags", Fl("ListHeader_listflags")),
  F("width", UINT32),
  F("height", UINT32),
  F("textrefsbitmap", UINT8),
  F("numberrefsbitmap", UINT8) >>
\* data BookmarkControl
BookmarkControlData == <<
  F("unknown1", UINT32),
  F("unknown2", UINT32),
  F("unknown3", UINT16),
  F("name", STR) >>
\* data FieldClickHere
FieldClickHereData == <<>>
\* data SectionDef
SectionDefData == <<
  F("unknown", Hex(280)) >>

(* fields: one layout, many kinds *)
FieldControl == <<
  F("chid", CHID),
  F("flags", Fl("Field_flags")),
  F("extra_attr", UINT8),
  F("command", STR),
  F("id", UINT32) >>
FieldKinds == <<
  <<"%unk", "FieldUnknown">>,
  <<"%dte", "FieldDate">>,
  <<"%ddt", "FieldDocDate">>,
  <<"%pat", "FieldPath">>,
  <<"%bmk", "FieldBookmark">>,
  <<"%mmg", "FieldMailMerge">>,
  <<"%xrf", "FieldCrossRef">>,
  <<"%fmu", "FieldFormula">>,
  <<"%clk", "FieldClickHere">>,
  <<"%smr", "FieldSummary">>,
  <<"%usr", "FieldUserInfo">>,
  <<"%hlk", "FieldHyperLink">>,
  <<"%sig", "FieldRevisionSign">>,
  <<"%%*d", "FieldRevisionDelete">>,
  <<"%%*a", "FieldRevisionAttach">>,
  <<"%%*C", "FieldRevisionClipping">>,
  <<"%%*S", "FieldRevisionSawtooth">>,
  <<"%%*T", "FieldRevisionThinking">>,
  <<"%%*P", "FieldRevisionPraise">>,
  <<"%%*L", "FieldRevisionLine">>,
  <<"%%*c", "FieldRevisionSimpleChange">>,
  <<"%%*h", "FieldRevisionHyperlink">>,
  <<"%%*A", "FieldRevisionLineAttach">>,
  <<"%%*i", "FieldRevisionLineLink">>,
  <<"%%*t", "FieldRevisionLineTransfer">>,
  <<"%%*r", "FieldRevisionRightMove">>,
  <<"%%*l", "FieldRevisionLeftMove">>,
  <<"%%*n", "FieldRevisionTransfer">>,
  <<"%%*e", "FieldRevisionSimpleInsert">>,
  <<"%spl", "FieldRevisionSplit">>,
  <<"%%mr", "FieldRevisionChange">>,
  <<"%%me", "FieldMemo">>,
  <<"%cpr", "FieldPrivateInfoSecurity">> >>

--------------------------------------------------------------------------------
(* name of the type, record tag, context it needs, fields.  Contexts:          *)
(* "none" (top level), "para" (in a paragraph header), a control id (in such a *)
(* control), "tbl +" (in a table, after its body), "shape" (in a shape)        *)
Rec(n, tag, ctx, fs) == [name |-> n, tag |-> tag, ctx |-> ctx, fs |-> fs]
Ctl(n, ch, fs) == Rec(n, 71, "none", << Vals(Codes({ch}), fs[1]) >> \o Tail(fs))
Records == <<
  Rec("DocumentProperties", 16, "none", DocumentProperties),
  Rec("IdMappings", 17, "none", IdMappings),
  Rec("BinData", 18, "none", BinData),
  Rec("FaceName", 19, "none", FaceName),
  Rec("BorderFill", 20, "none", BorderFill),
  Rec("CharShape", 21, "none", CharShape),
  Rec("TabDef", 22, "none", TabDef),
  Rec("Numbering", 23, "none", Numbering),
  Rec("Bullet", 24, "none", Bullet),
  Rec("ParaShape", 25, "none", ParaShape),
  Rec("Style", 26, "none", Style),
  Rec("DocData", 27, "none", DocData),
  Rec("DistributeDocData", 28, "none", DistributeDocData),
  Rec("CompatibleDocument", 30, "none", CompatibleDocument),
  Rec("LayoutCompatibility", 31, "none", LayoutCompatibility),
  Rec("TagModel32", 32, "none", TagModel32),
  Rec("Paragraph", 66, "none", Paragraph),
  Rec("ParaText", 67, "para", ParaText),
  Rec("ParaCharShape", 68, "para", ParaCharShape),
  Rec("ParaLineSeg", 69, "para", ParaLineSeg),
  Rec("ParaRangeTag", 70, "para", ParaRangeTag),
  Rec("Control", 71, "none", <<Vals(Codes({"zzzz", "$pic", "eqed"}), F("chid", CHID))>>),
  Rec("ListHeader", 72, "none", ListHeader),
  Rec("PageDef", 73, "none", PageDef),
  Rec("FootnoteShape", 74, "none", FootnoteShape),
  Rec("PageBorderFill", 75, "none", PageBorderFill),
  Rec("ShapeComponent", 76, "none", ShapeComponent),
  Rec("ShapeComponent", 76, "gso ", ShapeComponent),
  Rec("TableBody", 77, "none", TableBody),
  Rec("ShapeLine", 78, "none", ShapeLine),
  Rec("ShapeRectangle", 79, "none", ShapeRectangle),
  Rec("ShapeEllipse", 80, "none", ShapeEllipse),
  Rec("ShapeArc", 81, "none", ShapeArc),
  Rec("ShapePolygon", 82, "none", ShapePolygon),
  Rec("ShapeCurve", 83, "none", ShapeCurve),
  Rec("ShapeOLE", 84, "none", ShapeOLE),
  Rec("ShapePicture", 85, "none", ShapePicture),
  Rec("ShapeContainer", 86, "none", ShapeContainer),
  Rec("ControlData", 87, "none", ControlData),
  Rec("EqEdit", 88, "none", EqEdit),
  Rec("ShapeTextArt", 90, "none", ShapeTextArt),
  Rec("FormObject", 91, "none", FormObject),
  Rec("MemoShape", 92, "none", MemoShape),
  Rec("MemoList", 93, "none", MemoList),
  Rec("ForbiddenChar", 94, "none", ForbiddenChar),
  Rec("ChartData", 95, "none", ChartData),
  Rec("ShapeUnknown", 115, "none", ShapeUnknown),
  Ctl("BookmarkControl", "bokm", BookmarkControl),
  Ctl("ColumnsDef", "cold", ColumnsDef),
  Ctl("Dutmal", "tdut", Dutmal),
  Ctl("GShapeObjectControl", "gso ", GShapeObjectControl),
  Ctl("Header", "head", Header),
  Ctl("Footer", "foot", Footer),
  Ctl("HiddenComment", "tcmt", HiddenComment),
  Ctl("IndexMarker", "idxm", IndexMarker),
  Ctl("FootNote", "fn  ", FootNote),
  Ctl("EndNote", "en  ", EndNote),
  Ctl("AutoNumbering", "atno", AutoNumbering),
  Ctl("NewNumbering", "nwno", NewNumbering),
  Ctl("PageHide", "pghd", PageHide),
  Ctl("PageNumberPosition", "pgnp", PageNumberPosition),
  Ctl("PageOddEven", "pgct", PageOddEven),
  Ctl("SectionDef", "secd", SectionDef),
  Ctl("TableControl", "tbl ", TableControl),
  Ctl("TCPSControl", "tcps", TCPSControl),
  Rec("TableCaption", 72, "tbl ", TableCaption),
  Rec("TableCell", 72, "tbl +", TableCell),
  Rec("GShapeObjectCaption", 72, "gso ", GShapeObjectCaption),
  Rec("TextboxParagraphList", 72, "shape", TextboxParagraphList),
  Rec("HeaderParagraphList", 72, "head", HeaderParagraphList),
  Rec("FooterParagraphList", 72, "foot", FooterParagraphList),
  Rec("BookmarkControlData", 87, "bokm", BookmarkControlData),
  Rec("FieldClickHereData", 87, "%clk", FieldClickHereData),
  Rec("SectionDefData", 87, "secd", SectionDefData),
  Rec("UnknownTagModel", 500, "none", <<>>),
  Rec("ListHeader", 72, "fn  ", ListHeader),
  Rec("ControlData", 87, "tbl ", ControlData),
  Rec("ShapeComponent", 76, "shape", ShapeComponent) >> \o
  [i \in 1 .. Len(FieldKinds) |-> Ctl(FieldKinds[i][2], FieldKinds[i][1], FieldControl)]
=============================================================================
