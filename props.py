"""What each check explores: harness levels per tier.

A spec is a list of "harness:levels[@reach]" words.  A level is
1000 * mode + 100 * alternatives + size (mode 0 value, 1 error location, 2 error
message, 3 acceptance only); several levels are separated by commas.  @1, @2,
@12 or @- state which outcomes (1 accepted, 2 rejected) the harness has to
reach for its run not to be vacuous; the default is both in mode 0 and 3 and
rejection in modes 1 and 2."""


def spec(text):
    out = []
    for w in text.split():
        h, _, ls = w.partition(":")
        levels = [l.partition("@")[::2] for l in ls.split(",")]
        last = levels[-1][1]        # a reach after the last level holds for those without one
        for l, reach in levels:
            l, reach = int(l), reach or last
            r = [2] if l // 1000 in (1, 2) else [1, 2]
            if reach:
                r = [int(c) for c in reach if c != "-"]
            out.append((h, l, r))
    return out


COMMON_ASSUMPTIONS = [
    "rustc's lowering of the crate to LLVM IR (opt-level 1, fat LTO, overflow checks and debug assertions on) preserves its meaning; the release profile users build may optimise further",
    "the executor and its finite-domain pre-solver model LLVM IR faithfully: every run replays sampled paths natively and re-decides a sample of the finite-domain decisions with z3",
    "z3 is sound; a query it does not decide ends the path as an error, never as a pass",
    "the reference semantics in harness/src/refm.rs states the documentation's meaning",
    "memory allocation does not fail; threads, time and I/O are not modelled (the crate uses none while parsing)",
]
SUBS = "an arbitrary sub-parser offers at each position of each text any ordered list of up to k match ends (k is the hundreds digit of a level, the text length its last two digits); "

PROPS = {}


def prop(id, features, quick, thorough, bounds, assumptions=(), **kw):
    from meta import META
    title = next(m["title"] for m in META if m["id"] == id)
    PROPS[id] = dict(title=title, features=features.split(), quick=spec(quick), thorough=spec(thorough), bounds=bounds, assumptions=list(assumptions), **kw)


# ---- what matches, and which match is preferred
prop("P01", "comb macro",
     "h_seq2:3204 h_seq3:3202,3103 h_seq4:3202 h_seq_group_l:3202 h_seq_group_r:3202 h_alt3:3203 h_alt_seq:3202 h_seq_alt:3202 h_alt_arms:3202 h_alt_nested:3103 h_opt_seq:3203 h_opt_opt:3202 h_opt_group:3202 h_opt_alt:3202 "
     "h_opt_in_alt:3202 h_star_seq:3202,3104 h_plus_seq:3203 h_seq_star:3203 h_star_group:3202,3104 h_star_alt:3202 h_star_star:3202,3103 h_star_of_star:3203 h_plus_of_opt:3202 h_opt_of_plus:3202 h_sep:3202,3104 h_sep_seq:3201,3103 h_seq_sep:3202 h_sep_group:3201,3103 h_sep_sep:3201 h_sep_alt:3201 h_sep_star:3202 "
     "h_m_deep:5 h_m_long:5 h_m_pick_mid:5",
     "h_seq2:3305 h_seq3:3203,3302 h_seq4:3202,3104,3301 h_alt3:3304 h_alt5:3302 h_alt_seq:3203 h_seq_alt:3203 h_alt_arms:3203 h_opt_seq:3303 h_opt_opt:3203 h_opt_alt:3203 h_star_seq:3204,3303 h_plus_seq:3204 h_seq_star:3204 h_star_group:3204 h_star_alt:3203 h_star_star:3204 h_plus_of_opt:3203 h_opt_of_plus:3203 h_sep:3204 h_sep_seq:3202,3104 h_sep_sep:3202 h_sep_alt:3202 h_sep_star:3203 h_m_deep:7 h_m_long:7 h_m_pick_mid:7",
     SUBS + "31 nestings of the combinators; k 1 to 3 and texts of 1 to 4 positions (quick), to 5 (thorough); 3 patterns over all texts up to 5 (7) characters.")
prop("P02", "comb macro",
     "h_seq2:204 h_seq3:202 h_alt3:203 h_alt5:202 h_alt_seq:202 h_seq_alt:202 h_alt_arms:202 h_alt_nested:202 h_opt:203 h_opt_opt:202 h_opt_alt:202 h_opt_in_alt:202 h_star:204 h_star_seq:202,103 h_star_alt:202 h_star_star:202 h_plus_of_opt:202 h_opt_of_plus:202 h_sep:202,103 h_sep_seq:201,102 h_sep_alt:201 h_m_alt_many:5 h_m_alt_empty_arm:5 h_m_deep:5",
     "h_seq2:305 h_seq3:203,302 h_alt3:304 h_alt5:302 h_alt_seq:203 h_seq_alt:203 h_alt_arms:203 h_alt_nested:203,302 h_opt_opt:203 h_opt_alt:203 h_opt_in_alt:203 h_star:305 h_star_seq:203,302 h_star_alt:203 h_star_star:203 h_plus_of_opt:203 h_opt_of_plus:203 h_sep:203,302 h_sep_seq:202 h_sep_alt:202 h_m_alt_many:6 h_m_alt_empty_arm:7 h_m_deep:7",
     SUBS + "21 nestings; k 1 to 2 (3), texts of 1 to 4 (5) positions; 3 patterns over all texts up to 5 (7) characters.")
prop("P03", "comb macro",
     "h_seq2:204,303 h_seq3:202,103,301 h_seq4:202,103 h_seq_group_l:202,104 h_seq_group_r:202,104 h_seq_map:202,104 h_seq_alt:202 h_seq_star:203 h_seq_sep:202 h_m_pick_six:5",
     "h_seq2:205,305 h_seq3:203,302 h_seq4:104,301 h_seq_group_l:203,302 h_seq_group_r:203,302 h_seq_map:203,302 h_seq_alt:203 h_seq_star:204 h_seq_sep:203 h_m_pick_six:7",
     SUBS + "sequences of 2 to 4 arbitrary parts in 3 groupings and with parts that are alternatives or repetitions; k to 3, texts to 4 (5) positions.")
prop("P04", "comb macro",
     "h_alt2:204,303 h_alt3:203,302 h_alt5:202,103 h_alt_seq:202,104 h_seq_alt:202,104 h_alt_arms:202,103 h_alt_nested:202,103 h_opt_alt:202 h_star_alt:202 h_sep_alt:201 h_m_alt_many:5 h_m_alt_trailing:5@1 h_m_alt_nested:5 h_m_alt_empty_arm:5 h_m_alt_fn:5",
     "h_alt2:305 h_alt3:304 h_alt5:203,302 h_alt_seq:203,302 h_seq_alt:203,302 h_alt_arms:203,302 h_alt_nested:203,302 h_opt_alt:203 h_star_alt:203 h_sep_alt:202 h_m_alt_many:7 h_m_alt_trailing:8@1 h_m_alt_nested:7 h_m_alt_empty_arm:7 h_m_alt_fn:7",
     SUBS + "braces of 2, 3 and 5 arbitrary alternatives, nested, in sequences, optional and repeated; k to 3, texts to 4 (5) positions; 5 patterns with literal alternatives over all texts up to 5 (7) characters.")
prop("P05", "comb macro",
     "h_opt:204,303 h_opt_seq:203,104 h_opt_opt:202,103 h_opt_group:202,103 h_opt_alt:202,103 h_opt_in_alt:202,103 h_plus_of_opt:202 h_opt_of_plus:202 h_m_ident:5 h_m_lit:5 h_m_group:5 h_m_deep:5",
     "h_opt:305 h_opt_seq:205,303 h_opt_opt:203,302 h_opt_group:203,302 h_opt_alt:203,302 h_opt_in_alt:203,302 h_plus_of_opt:203 h_opt_of_plus:203 h_m_ident:7 h_m_lit:7 h_m_group:7 h_m_deep:7",
     SUBS + "8 patterns around optional arbitrary parts and 4 over all texts up to 5 (7) characters; k to 3, texts to 4 (5) positions.")
prop("P06", "comb macro",
     "h_star:204,303,106 h_plus:204,303,106 h_star_seq:202,103 h_plus_seq:202,103 h_seq_star:203 h_star_group:202,104 h_star_alt:202,103 h_star_star:202,103 h_star_of_star:203 h_plus_of_opt:202 h_opt_of_plus:202 h_m_ident:5 h_m_call:4 h_m_brace:4 h_m_star_only:6",
     "h_star:206,305 h_plus:206,305 h_star_seq:203,302,105 h_plus_seq:203,302,105 h_seq_star:204 h_star_group:203,105 h_star_alt:203,104 h_star_star:203,104 h_star_of_star:204 h_plus_of_opt:203 h_opt_of_plus:203 h_m_ident:7 h_m_call:6 h_m_brace:6 h_m_star_only:8",
     SUBS + "11 patterns around repeated arbitrary parts, 4 over all texts up to 4 to 6 (8) characters; k to 3, texts to 6 positions, so up to 6 repetitions (plus one that consumes nothing).")
prop("P07", "comb macro",
     "h_sep:202,104,301 h_sep_seq:201,103 h_seq_sep:202,103 h_sep_group:201,103 h_sep_sep:201,103 h_sep_alt:201,103 h_sep_star:202,103 h_m_args_trailing:6 h_m_args_nested:6 h_m_args_var:6 h_m_args_ref:6 h_m_in_arg:6",
     "h_sep:203,105,302 h_sep_seq:202,104,301 h_seq_sep:203,104 h_sep_group:202,104 h_sep_sep:202,104 h_sep_alt:202,104 h_sep_star:203,104 h_m_args_trailing:8 h_m_args_nested:8 h_m_args_var:8 h_m_args_ref:8 h_m_in_arg:8",
     SUBS + "7 patterns around repeat_sep with arbitrary items and separators, 5 over all texts up to 6 (8) characters; k to 3, texts to 4 (5) positions.")
prop("P08", "comb misc",
     "h_star_of_star:203,104 h_plus_of_opt:202 h_star_star:202 h_sep_star:202 h_star:204 h_sep:202 h_tot_empty:3@12 h_tot_emptysep:3@12 h_tot_emptysub:202@2,104@2",
     "h_star_of_star:204,303 h_plus_of_opt:203 h_star_star:203 h_sep_star:203 h_star:205 h_sep:203 h_tot_empty:5@12 h_tot_emptysep:5@12 h_tot_emptysub:203@2,106@2",
     SUBS + "matches may be empty everywhere; repetitions of repetitions, optionals and possibly empty lines and sections, with possibly empty separators; texts to 3 (6) positions. A path is reported when it passes the instruction bound and the concrete replay does not return either.",
     max_steps=3000000)
# ---- lines and sections
LINES_T = "h_line h_line1 h_line_then h_line_line h_any_line h_line_lit h_line_blank h_line_nl_inside h_line_opt h_line_alt h_line_alpha h_line_inner_bt h_lines h_lines1 h_lines_a h_lines_lines h_lines_star h_lines_any h_line_plus h_line_sep"
SECT_T = "h_section h_section_then h_section_section h_any_section h_section_lines h_section_a h_section_nonl h_section_nl_lit h_sections h_sections_lines h_sections_a h_sections_head h_sections_any h_section_alt"
NEST_T = "h_line_of_line h_line_of_lines h_section_of_section h_section_lines h_section_a h_section_line h_line_section h_lines_section h_sections_lines h_sections_a h_sections_head h_sections_any h_section_alt"


R1 = {"h_line_nl_inside": "@2", "h_line_section": "@2"}
for _h in "h_lines h_lines_any h_sections h_sections_lines h_sections_any".split():
    R1[_h] = "@1"


def at(names, lv):
    return " ".join("%s:%s%s" % (n, lv, R1.get(n, "")) for n in names.split()) + " "


prop("P09", "scope",
     at(LINES_T, "5") + "h_line_utf8:5@1 h_lines_utf8:5 h_line_sub:204 h_line_sub_seq:203 h_sub_line:203 h_line_two_subs:202 h_lines_sub:203 h_lines_sub_seq:202,104 h_line_alt_sub:202 h_lines_long:12",
     at(LINES_T, "8") + "h_line_utf8:8@1 h_lines_utf8:8 h_line_sub:206 h_line_sub_seq:204 h_sub_line:204 h_line_two_subs:203 h_lines_sub:204 h_lines_sub_seq:203 h_line_alt_sub:203 h_lines_long:60",
     "20 line patterns over all ASCII texts (or all texts over a, b and newline) up to 5 (8) characters, 2 over all UTF-8 texts of 5 (8) bytes, 7 with arbitrary patterns inside and around over texts with symbolic newlines of 2 to 4 (6) characters; one text of 12 (60) lines with symbolic ones among them.")
prop("P10", "scope",
     at(SECT_T, "5") + "h_section_utf8:5@1 h_sections_utf8:5 h_section_sub:204 h_section_sub_seq:203 h_sub_section:203 h_sections_sub:203 h_section_lines_sub:203 h_section_line_sub:202 h_line_section_sub:202 h_sections_long:6@1",
     at(SECT_T, "8") + "h_section_utf8:7@1 h_sections_utf8:7 h_section_sub:206 h_section_sub_seq:204 h_sub_section:204 h_sections_sub:204 h_section_lines_sub:204 h_section_line_sub:203 h_line_section_sub:203 h_sections_long:40@1",
     "14 section patterns over all ASCII texts (or all texts over a, b and newline) up to 5 (8) characters, 2 over all UTF-8 texts of 5 (7) bytes, 7 with arbitrary patterns inside and around over texts with symbolic newlines of 2 to 4 (6) characters; one text of 6 (40) sections with symbolic lines among them.")
prop("P11", "scope rules",
     at(NEST_T, "6") + "h_section_lines_sub:203 h_section_line_sub:202 h_line_section_sub:202 h_formation_sections:5 h_set_in_line:202 h_set_after_line:202 h_rule_of_line:202",
     at(NEST_T, "8") + "h_section_lines_sub:204 h_section_line_sub:203 h_line_section_sub:203 h_formation_sections:7 h_set_in_line:203 h_set_after_line:203 h_rule_of_line:203",
     "13 compositions of line and section patterns over all texts up to 6 (8) characters, 3 with arbitrary patterns inside, 4 with rules inside regions.")
# ---- errors
E_ALL = "h_e_one h_e_seq h_e_alt h_e_alt_seq h_e_opt h_e_star h_e_plus h_e_sep h_e_map h_e_string h_e_line h_e_line_seq h_e_seq_line h_e_lines h_e_lines_seq h_e_section h_e_sections h_e_section_lines h_e_sections_lines h_e_line_alt h_e_line_line h_e_nested3 h_e_set"
prop("P12", "errs",
     at(E_ALL, "1202") + "h_e_seq:1103 h_e_alt:1103 h_e_star:1103 h_e_line_seq:1103 h_e_lines:1103 h_e_section_lines:1103 h_foremost:4@2",
     at(E_ALL, "1203") + at(E_ALL, "1302") + "h_e_section_lines:1104 h_foremost:6@2",
     SUBS + "each failing at any location from its start to the end of its text; 23 patterns, k to 2 (3), texts of 2 to 3 (4) characters with symbolic newlines for regions.")
prop("P13", "errs",
     "h_show_lines:4@12 h_show_sections:4@12 h_show_mixed:4@2 h_show_num:3@12 h_show_opt:4@12 h_show_ascii:5@12 h_show_second_line:3@2 h_show_section2:3@12 h_show_mix:3@12 h_show_mix_after:3@12 h_show_mix_section:3@12 h_show_mix_chars:3@12 h_e_line:2202,1103 h_e_lines_seq:2202 h_e_sections_lines:2202 h_e_line_line:2202 h_e_nested3:2202,1103 h_e_section:2202,1103 h_e_sections:2202 h_e_seq_line:2202 h_e_set:2202 h_e_sep:2202",
     "h_show_lines:6@12 h_show_sections:6@12 h_show_mixed:6@2 h_show_num:5@12 h_show_opt:6@12 h_show_ascii:7@12 h_show_second_line:5@2 h_show_section2:5@12 h_show_mix:4@12 h_show_mix_after:4@12 h_show_mix_section:4@12 h_show_mix_chars:4@12 h_e_line:2203,1104 h_e_lines_seq:2203 h_e_sections_lines:2203 h_e_line_line:2203 h_e_nested3:2203,1105 h_e_section:2203,1104 h_e_sections:2203 h_e_seq_line:2203 h_e_set:2203 h_e_sep:2203",
     "8 patterns over all UTF-8 texts of 3 to 5 (5 to 7) bytes and 4 over texts of 3 (4) characters of every encoded length, some after multi-byte lines; regions to depth 3 with sub-patterns failing anywhere in texts of 2 to 3 (5) characters.")
prop("P14", "errs",
     "h_disp_any:4@2 h_disp_mix:4@2 h_show_mix:3@12 h_disp_ascii:5@2 h_disp_long:2@2 h_debug:3@2 h_from_str:3@2 h_show_lines:3@12 h_show_mixed:3@2 h_show_second_line:3@2 h_show_section2:3@12",
     "h_disp_any:6@2 h_disp_mix:6@2 h_show_mix:4@12 h_disp_ascii:8@2 h_disp_long:4@2 h_debug:5@2 h_from_str:5@2 h_show_lines:5@12 h_show_mixed:5@2 h_show_second_line:5@2 h_show_section2:5@12",
     "all locations of all UTF-8 texts of 4 (6) bytes, of texts of 4 (6) characters of every encoded length, and of texts of 5 (8) characters with symbolic newlines and carriage returns; texts of more than nine lines and columns; Debug and clones on texts of 3 (5) characters.")
prop("P15", "errs chars nums",
     at(E_ALL, "2202") + "h_alpha_run:2002 h_alnum_run:2002 h_upper_run:2002 h_lower_run:2002 h_digit:2002 h_digit_bin:2002 h_digit_hex:2002 h_of_dirs:2001 h_of_uni:2001 h_exact_ab:2003 h_exact_uni:2003 h_exact_char:2002 h_u8:2004 h_i8_bin:2003 h_lim_i8:2002 h_lim_u8_hex:2002 h_lim_u16:2002 h_bu:2002 h_bool:2003 h_f64:2003 h_foremost:4@2 h_from_str:3@2",
     at(E_ALL, "2203") + at(E_ALL, "2302") + "h_alpha_run:2003 h_alnum_run:2003 h_upper_run:2003 h_lower_run:2003 h_digit:2003 h_digit_bin:2003 h_digit_hex:2003 h_of_dirs:2003 h_of_uni:2003 h_exact_ab:2004 h_exact_uni:2004 h_exact_char:2003 h_u8:2005 h_i8_bin:2004 h_lim_i8:2004 h_lim_u8_hex:2003 h_lim_u16:2003 h_bu:2003 h_bool:2004 h_f64:2004 h_foremost:6@2 h_from_str:5@2",
     "23 patterns over arbitrary sub-parsers failing anywhere (k to 2 (3), texts to 2 (3) characters); what each basic pattern says it expected, and conversion failures, over all texts of 2 to 4 (5) characters.")
prop("P16", "misc nums chars",
     "h_tot_line:2@2 h_tot_sections:2@12 h_tot_any:3@1 h_tot_chars:3@12 h_tot_nums:3@2 h_tot_float:4@1 h_tot_bool:3@2 h_tot_mixed:3@12 h_tot_rules:3@12 h_tot_empty:3@12 h_tot_emptysep:3@12 h_tot_emptysub:202@2 h_tot_debug:3@12 h_lim_i128:1 h_lim_u64:1 h_uni_u32:4 h_of_uni:3",
     "h_tot_line:3@2 h_tot_sections:3@12 h_tot_any:4@1 h_tot_chars:4@12 h_tot_nums:4@2 h_tot_float:5@1 h_tot_bool:5@12 h_tot_mixed:4@12 h_tot_rules:5@12 h_tot_empty:5@12 h_tot_emptysep:5@12 h_tot_emptysub:204@2 h_tot_debug:4@12 h_lim_i128:3 h_lim_u64:3 h_uni_u32:5 h_of_uni:4",
     "14 patterns covering every building block over all UTF-8 texts of 2 to 4 (5) bytes; every panic, overflow, bad index, failed assertion, access outside an allocation and unbounded run on a path is reported.")
# ---- basic patterns
T12 = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()


def nums(fmt, lv, suffix=""):
    return " ".join("%s:%s" % (fmt % (t + suffix), lv) for t in T12) + " "


prop("P17", "nums",
     nums("h_%s", "3") + nums("h_lim_%s", "2") + "h_in_u8:4@1 h_in_i64:4@1 h_uni_u32:4 h_uni_i32:4",
     nums("h_%s", "4") + nums("h_lim_%s", "3") + "h_in_u8:6@1 h_in_i64:6@1 h_uni_u32:5 h_uni_i32:5",
     "each of the 12 types: all ASCII texts up to 3 (4) characters; texts whose first digits are those of the type's limit, with any sign and leading zeros, and whose last 2 (3) characters are arbitrary; 2 types inside lists of up to 4 (6) characters; 2 types on all UTF-8 texts of 4 (5) bytes.", budget=100)
prop("P18", "nums",
     nums("h_%s", "2", "_bin") + nums("h_%s", "2", "_hex") + nums("h_lim_%s", "1", "_bin") + nums("h_lim_%s", "1", "_hex") + "h_u8_bin:4 h_i8_hex:3 h_lim_i16_bin:2 h_lim_i8_hex:2 h_lim_u32_hex:2 h_lim_i64_hex:2 h_in_u16_hex:4@1 h_in_i8_bin:4@1 h_uni_u8_hex:3",
     nums("h_%s", "3", "_bin") + nums("h_%s", "3", "_hex") + nums("h_lim_%s", "2", "_bin") + nums("h_lim_%s", "2", "_hex") + "h_u8_bin:4 h_i8_hex:4 h_lim_i16_bin:3 h_lim_i8_hex:3 h_in_u16_hex:6@1 h_in_i8_bin:6@1 h_uni_u8_hex:4",
     "each of the 24 patterns: all ASCII texts up to 2 (3) characters; texts around each type's limits with the last 1 to 2 (2 to 3) characters arbitrary, any sign and leading zeros; 2 inside lists; 1 on UTF-8 texts of 3 (4) bytes.", budget=100)
prop("P19", "nums",
     "h_bu:3@12,202@1,402@1 h_bi:3@12,202@1 h_bu_bin:3@12,602@1 h_bi_bin:3@12,602@1 h_bu_hex:3@12,202@1 h_bi_hex:3@12,202@1,402@1",
     "h_bu:4@12,203@1,403@1,902@1 h_bi:4@12,203@1,403@1,902@1 h_bu_bin:4@12,603@1,902@1 h_bi_bin:4@12,603@1,902@1 h_bu_hex:4@12,203@1,403@1,902@1 h_bi_hex:4@12,203@1,403@1,902@1",
     "each of the 6 patterns: all ASCII texts of 3 (4) characters; numbers of 24 to 72 (108) digits whose last 2 (3) characters are arbitrary.", budget=100)
prop("P20", "nums",
     "h_f64_any:2 h_f64:3 h_f64_word:3 h_f64_inf:4@1 h_f64_exp:3@1 h_f32_any:2 h_f32:3 h_f32_round:2@1 h_f32_inf:4@1 h_bool:4 h_bools:4",
     "h_f64_any:3 h_f64:5 h_f64_word:4 h_f64_inf:5@1 h_f64_exp:5@1 h_f32_any:3 h_f32:4 h_f32_round:4@1 h_f32_inf:5@1 h_bool:5 h_bools:5",
     "all ASCII texts up to 2 (3) characters, up to 3 to 4 (5) characters over those that occur in numbers, words around inf, infinity and nan, exponents, values near halfway points of f32; booleans over all texts up to 4 (5) characters.",
     ["the value of a float lexeme is compared with the standard library's own conversion of the text the reference grammar selects"])
prop("P21", "chars",
     "h_alpha:1 h_alnum:1 h_upper:1 h_lower:1 h_any:3 h_every:20,21,22,23,24@1,30,31,32,33,34@1,40,41,42,43,44@1 h_alpha_run:3 h_alnum_run:3 h_upper_run:3 h_lower_run:3",
     "h_alpha:2 h_alnum:2 h_upper:2 h_lower:2 h_any:4 h_every:20,21,22,23,24@1,30,31,32,33,34@1,40,41,42,43,44@1,50@2,51@12,52@2,53@2,54@1 h_alpha_run:5 h_alnum_run:5 h_upper_run:5 h_lower_run:5",
     "each class against every single character up to U+3FFFF (thorough: all of Unicode); any_char against all UTF-8 texts up to 3 (4) bytes; runs over all ASCII texts up to 3 (5) characters.",
     ["for characters outside ASCII the Unicode categories are those of the standard library's char methods"])
prop("P22", "chars",
     "h_digit:3 h_digit_bin:3 h_digit_hex:3 h_every:25@2,26@2,27@2,28@12,35@2,36@2,37@2,38@12,45@2,46@2,47@2,48@12 h_of_dirs:3 h_of_one:3 h_of_none:2@2 h_of_dup:3 h_of_uni:3 h_of_shared:3 h_of_many:3 h_of_order:3 h_of_sym:3",
     "h_digit:4 h_digit_bin:4 h_digit_hex:4 h_every:25@2,26@2,27@2,28@12,35@2,36@2,37@2,38@12,45@2,46@2,47@2,48@12,55@2,56@2,57@2,58@2 h_of_dirs:4 h_of_one:4 h_of_none:3@2 h_of_dup:4 h_of_uni:4 h_of_shared:4 h_of_many:4 h_of_order:4 h_of_sym:5",
     "the digit patterns and a char_of with options of each length against every single character up to U+3FFFF (thorough: all of Unicode); all UTF-8 texts up to 3 (4) bytes against the 3 digit patterns and 8 option strings (repeated, multi-byte, sharing leading bytes); symbolic option strings of 3 (5) characters.")
prop("P23", "chars",
     "h_exact_a:3 h_exact_ab:4 h_exact_empty:3@1 h_exact_nl:4 h_exact_uni:5 h_exact_char:3 h_exact_uchar:4 h_exact_case:4 h_exact_long:3 h_exact_sym:3@12 h_exact_symchar:2@12",
     "h_exact_a:4 h_exact_ab:4 h_exact_empty:4@1 h_exact_nl:5 h_exact_uni:5 h_exact_char:4 h_exact_uchar:5 h_exact_case:6 h_exact_long:3 h_exact_sym:4@12 h_exact_symchar:3@12",
     "9 exact texts against all UTF-8 texts of 3 to 5 bytes; symbolic exact texts of up to 3 (4) characters and symbolic exact characters against symbolic texts.")
prop("P24", "chars comb shape rules",
     "h_string_any:4@1 h_string_mid:4 h_string_bt:5 h_string_sep:5 h_string_map:4 h_string_empty:5 h_string_line:5 h_string_in_line:5 h_string_nested:4 h_string_val:202 h_rule_string:202",
     "h_string_any:5@1 h_string_mid:6 h_string_bt:7 h_string_sep:7 h_string_map:6 h_string_empty:7 h_string_line:7 h_string_in_line:7 h_string_nested:5 h_string_val:203 h_rule_string:203",
     "9 patterns with captures over all texts of 4 to 5 (5 to 7) characters; captures of arbitrary patterns with k = 2 on texts of 2 (3) positions.")
# ---- values
RAN = "h_ran_star h_ran_alt h_ran_opt h_ran_sep h_ran_string h_ran_nested"
prop("P25", "shape misc",
     at(RAN, "203") + "h_ran_line:5 h_ran_section:6 h_ran_rule:5 h_ran_never:203@2 h_st_map:202 h_st_string:202 h_st_seq:202 h_st_star:202",
     at(RAN, "204") + "h_ran_line:7 h_ran_section:8 h_ran_rule:7 h_ran_never:204@2 h_st_map:203 h_st_string:203 h_st_seq:203 h_st_star:203",
     SUBS + "11 patterns with conversions that record each evaluation, under every combinator, in lines, sections and rules; k = 2, texts to 3 (4) positions or to 6 (8) characters.")
SHAPES = "h_one h_two h_between h_around h_group_l h_group_r h_group_1 h_group_unit h_named h_named_lit h_opt_pair h_star1 h_star_pair h_sep_val h_sep_pair h_line_val h_line_optval h_lines_val h_section_val h_sections_val h_alt_val h_alt_pairs h_alt_trailing h_alt_opt h_string_val h_tuple4 h_map1 h_map_swap h_map_unlabelled h_map_group h_map_call h_map_call_unlabelled h_map_line h_map_const h_map_nested h_map_brace h_map_in_star"
prop("P26", "shape macro",
     at(SHAPES, "202") + "h_none:3 h_opt1:202@1 h_star_of_opt:202@1 h_opt_of_star:202@1 h_map_star:203 h_tuple8:8@1,7@2 h_tuple7:6@1,5@1,4@1 h_tuple6:6@12,5@12,4@1 h_map_five:5@1,6@1,4@2 h_m_pick_six:5 h_m_group:5 h_m_l_group:5",
     at(SHAPES, "203") + "h_none:4 h_opt1:203@1 h_star_of_opt:203@1 h_opt_of_star:203@1 h_map_star:204 h_tuple8:8@1,9@2 h_tuple7:6@1,7@1,8@1 h_tuple6:6,7,8 h_map_five:5@1,6@1,7@2 h_m_pick_six:7 h_m_group:7 h_m_l_group:7",
     "48 pattern shapes, their documented types and which match ends in which slot; k = 2, texts of 2 (3) positions for those over arbitrary sub-parsers; tuples of 6 to 8 values over texts of 4 to 8 characters.", typed=True)
GEN = " ".join("h_g_%s_%s" % (p, h) for p in "sole first last mid group arms map mapmid arg lab_sole lab_first lab_last lab_two lab_second lab_skip lab_group lab_group2 lab_arms lab_arms2 lab_arms3 lab_arg lab_rule rule_arm".split() for h in "ab")
prop("P34", "macro mgen",
     " ".join("%s:5" % h for h in "h_m_ident h_m_lit h_m_char h_m_call h_m_group h_m_brace h_m_single h_m_empty_group h_m_star_only h_m_l_ident h_m_l_lit h_m_l_char h_m_l_call h_m_l_group h_m_l_brace h_m_l_one h_m_l_none h_m_l_unit h_m_pick_mid h_m_pick_ends h_m_pick_six h_m_scope h_m_in_arm h_m_in_arg h_m_capture h_m_nested_map h_m_args_trailing h_m_args_nested h_m_args_var h_m_args_ref h_m_alt_many h_m_alt_trailing@1 h_m_alt_nested h_m_alt_empty_arm h_m_alt_fn h_m_deep h_m_long h_m_rules".replace("@1", "").split() if h != "h_m_alt_trailing") + " h_m_alt_trailing:5@1 " + at(GEN, "4"),
     " ".join("%s:7" % h for h in "h_m_ident h_m_lit h_m_char h_m_call h_m_group h_m_brace h_m_single h_m_empty_group h_m_star_only h_m_l_ident h_m_l_lit h_m_l_char h_m_l_call h_m_l_group h_m_l_brace h_m_l_one h_m_l_none h_m_l_unit h_m_pick_mid h_m_pick_ends h_m_pick_six h_m_scope h_m_in_arm h_m_in_arg h_m_capture h_m_nested_map h_m_args_trailing h_m_args_nested h_m_args_var h_m_args_ref h_m_alt_many h_m_alt_nested h_m_alt_empty_arm h_m_alt_fn h_m_deep h_m_long h_m_rules".split()) + " h_m_alt_trailing:7@1 " + at(GEN, "6"),
     "12 forms of term under each of 4 quantifiers at 23 places each (alone, first, last, in groups, arms, arguments, rules, conversions, labelled or not; 1104 patterns) on all texts up to 4 (6) characters over four; 38 further patterns covering each form of term (name, string, character, call, group, braces) unlabelled and labelled under each quantifier, scoping of labels, arguments, alternatives and rules, on all texts up to 5 (7) characters over each pattern's alphabet.", typed=True)
# ---- rules
prop("P27", "rules",
     "h_formation:5 h_formation_lines:5 h_formation_sections:5 h_json:5 h_json_deep:3@12 h_ambiguous:4 h_right_rec:6 h_mutual:6 h_rule_rec_sub:203 h_rec_after:5 h_rec_star:5 h_rec_sep:5 h_rec_alt:5 h_rec_opt:5 h_rec_second_line:5 h_rec_string:5 h_rec_map:5 h_rec_in_rule:5",
     "h_formation:7 h_formation_lines:7 h_formation_sections:7 h_json:7 h_json_deep:12@12 h_ambiguous:6 h_right_rec:8 h_mutual:8 h_rule_rec_sub:204 h_rec_after:7 h_rec_star:7 h_rec_sep:7 h_rec_alt:7 h_rec_opt:7 h_rec_second_line:7 h_rec_string:7 h_rec_map:7 h_rec_in_rule:7",
     "7 recursive grammars, one of them also embedded in 9 kinds of surroundings, over all texts up to 4 to 6 (6 to 8) characters of their alphabets, one nested 6 (24) deep around symbolic text, one with arbitrary sub-parsers.")
RULES_S = "h_rule_sub h_rule_seq h_rule_twice h_rule_alt h_rule_star h_rule_of_star h_rule_opt h_rule_chain h_rule_order h_rule_unused h_rule_line h_rule_of_line h_rule_section h_rule_sep h_rule_string h_two_sets h_two_sets_types h_set_in_line h_sets_alt h_set_after_line"
prop("P28", "rules",
     at(RULES_S, "202") + "h_set_retry:202,1202 h_set_retry_opt:202 h_set_retry_lines:202 h_set_retry_then:202 h_set_retry_inner:201,102,1201 h_set_in_set:201,102 h_moved:4 h_rebuilt:4 h_same_set_twice:4 h_error_after_sets:5,1004",
     at(RULES_S, "203") + "h_set_retry:203,1203 h_set_retry_opt:203 h_set_retry_lines:203 h_set_retry_then:202,103 h_set_retry_inner:202,103,1202 h_set_in_set:202,103 h_moved:6 h_rebuilt:6 h_same_set_twice:6 h_error_after_sets:6,1005",
     SUBS + "15 ways to use rules, 6 combinations of several rule sets, k = 2, texts of 2 (3) positions; moved, rebuilt, shared and dropped rule sets on texts up to 4 (6) characters.")
prop("P29", "coll",
     "h_hset:4@1 h_bset:4@1 h_hmap:3@1 h_bmap:3@1 h_deque:5@1 h_deque_sep:5 h_deque_lines:5@1 h_bset_lines:4@1 h_hmap_lines:3@1 h_deque_sub:202 h_deque_sep_sub:201,103 h_bset_sub:202 h_hset_sub:202 h_hmap_sub:201,102 h_bmap_sub:201,103 h_nested:5@1 h_coll_two:5@1",
     "h_hset:5@1 h_bset:5@1 h_hmap:4@1 h_bmap:4@1 h_deque:8@1 h_deque_sep:7 h_deque_lines:7@1 h_bset_lines:5@1 h_hmap_lines:4@1 h_deque_sub:203 h_deque_sep_sub:202 h_bset_sub:203 h_hset_sub:203 h_hmap_sub:202 h_bmap_sub:202 h_nested:7@1 h_coll_two:7@1",
     "collections of up to 5 (8) values with repeats in every arrangement; matching around collections of arbitrary patterns with k to 2, texts to 2 to 3 positions.",
     ["hash collections use the standard library's hasher with fixed keys"])
# ---- whole library
prop("P30", "misc",
     "h_aoc_lines:4@1 h_aoc_any:4@1 h_aoc_seps:5@1 h_aoc_sections:4,2004 h_aoc_line:4,2004 h_aoc_nonl:5,1005",
     "h_aoc_lines:6@1 h_aoc_any:6@1 h_aoc_seps:8@1 h_aoc_sections:6,2006 h_aoc_line:6,2006 h_aoc_nonl:8,1008",
     "6 patterns over all texts up to 4 to 5 (6 to 8) characters, values and errors.")
prop("P31", "misc",
     "h_again_lines:4 h_again_alt:4 h_again_sections:4 h_again_rules:4 h_again_num:4 h_again_sym:3@1 h_again_clone:4 h_again_inner:4 h_again_shared:5 h_again_buf_num:3 h_again_buf_lines:4 h_again_buf_sections:4 h_again_buf_alt:3@1 h_again_buf_rules:4 h_again_buf_sub:3 h_again_buf_lit:3 h_again_buf_coll:3@1",
     "h_again_lines:6 h_again_alt:6 h_again_sections:6 h_again_rules:5 h_again_num:5 h_again_sym:4@1 h_again_clone:6 h_again_inner:6 h_again_shared:7 h_again_buf_num:5 h_again_buf_lines:5 h_again_buf_sections:6 h_again_buf_alt:4@1 h_again_buf_rules:5 h_again_buf_sub:4 h_again_buf_lit:5 h_again_buf_coll:4@1",
     "9 patterns, each used twice or more with another (in one case symbolic) text parsed in between, over all texts up to 4 to 5 (7) characters of their alphabets; 8 patterns on all pairs of texts of 3 to 4 (3 to 6) characters that follow one another in the same place in memory.")
ST = "h_st_seq h_st_alt h_st_alt3 h_st_opt h_st_star h_st_plus h_st_star_opt h_st_sep h_st_map h_st_string h_st_line h_st_lines h_st_lines_seq h_st_section h_st_sections h_st_coll"
prop("P32", "misc",
     at(ST, "202") + "h_st_sep_seq:102,201 h_st_region_text:4@1 h_st_star:103 h_st_lines:103 h_st_sep:103",
     at(ST, "203") + "h_st_sep_seq:202,103 h_st_region_text:6@1 h_st_star:204 h_st_lines:204 h_st_sep:204",
     SUBS + "every call the library makes is checked against the protocol; 17 patterns, k = 2, texts of 2 to 3 (4) positions; the text seen in regions for all texts of 4 (6) characters.")
prop("P33", "errs",
     "h_foremost:5@2 h_disp_any:3@2 h_disp_ascii:3@2 h_from_str:3@2",
     "h_foremost:7@2 h_disp_any:5@2 h_disp_ascii:5@2 h_from_str:5@2",
     "all series of 5 (7) reports of the three kinds at locations 0 to 6, with distinguishable contents.")

# ---- long inputs: harnesses with a length as their level, explicit reach
prop("P36", "far",
     " ".join("h_stack_%s:400@12" % h for h in "star plus back allback alt opt sep sepsub lines sections string map group collect rule nested".split()) + " h_stack_regions:400@1",
     " ".join("h_stack_%s:400@12,4000@12" % h for h in "star plus back allback alt opt sep sepsub lines sections string map group collect rule nested".split()) + " h_stack_regions:400@1,4000@1",
     "17 patterns with every kind of repetition over texts of 400 (4000) items, three of which are symbolic; the depth is measured at every call of a user-written parser, its matches and its values, including when they are dropped.")
FAR = {
    "P01": "star:1100@12 back:1100@12 sep:1100@12 lines:1100@12 sections:1100@1 classes:1100@12 nested:300@12",
    "P06": "star:1100@12 back:1100@12 plus:1100@1 ran:1100@1 again:300@1",
    "P07": "sep:1100@12 keys:300@1 again:1100@1",
    "P09": "lines:1100@12 rulelines:300@12 errline:300@2 append:300@1",
    "P10": "sections:1100@1 errsection:300@12",
    "P11": "sections:300@1 rulelines:1100@12",
    "P12": "errline:1100@2 errcol:1100@2 errsection:1100@12 report:1100@2 sep:300@12 star:300@12",
    "P13": "errline:1100@2 errcol:1100@2 errsection:1100@12 lines:300@12 rulelines:300@12",
    "P14": "display:300@2,70000@2 errcol:1100@2 errline:1100@2 lines:1100@12",
    "P16": "zeros:1100@12 toobig:1100@2 fraction:1100@12 star:1100@12 exact:300@12 options:100@12 nested:1100@12 sections:300@1",
    "P17": "zeros:40@12,1100@12 toobig:40@2,1100@2",
    "P18": "zeros:130@12 toobig:130@2",
    "P19": "big:40@1,1100@1 zeros:300@12",
    "P20": "fraction:40@12,1100@12",
    "P21": "classes:300@12 string:300@1",
    "P22": "options:100@12 star:300@12",
    "P23": "exact:40@12,1100@12",
    "P24": "string:40@1,1100@1,70000@1 back:1100@12",
    "P25": "ran:40@1,1100@1",
    "P27": "nested:40@12,1100@12",
    "P28": "rulelines:300@12 nested:40@12 sets:300@12",
    "P29": "collect:1100@1 keys:40@1,300@1",
    "P30": "append:1100@1",
    "P31": "again:300@1",
    "P33": "report:300@2,1100@2",
}
for _p, _t in FAR.items():
    _q = spec(" ".join("h_far_" + w for w in _t.split()))
    PROPS[_p]["features"].append("far")
    PROPS[_p]["quick"] += _q
    PROPS[_p]["thorough"] += _q
    PROPS[_p]["bounds"] += " Also long inputs: " + ", ".join(sorted({h[6:] for h, _, _ in _q})) + " at up to %d units with three symbolic positions." % max(l for _, l, _ in _q)
