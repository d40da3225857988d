pub mod bld;
pub mod blob;
pub mod det;
pub mod dig;
pub mod doc;
pub mod enc;
pub mod enums;
pub mod full;
pub mod ink;
pub mod long;
pub mod mut_;
pub mod names;
pub mod nb;
pub mod near;
pub mod opening;
pub mod order;
pub mod refs;
pub mod skip;
pub mod store;
pub mod t;
pub mod tags;
pub mod term;
pub mod text;
pub mod vp;
pub mod wire;
pub mod wireeq;

/// Every entry point, by name (used by the native replay binary).
pub static ENTRIES: &[(&str, extern "C" fn(u64))] = &[
    ("p_bytes", blob::p_bytes),
    ("p_assign", blob::p_assign),
    ("p_missing", blob::p_missing),
    ("p_pages", blob::p_pages),
    ("p_revised", blob::p_revised),
    ("p_places", blob::p_places),
    ("p_listed", blob::p_listed),
    ("h_det", det::h_det),
    ("e_colref", enums::e_colref),
    ("e_align", enums::e_align),
    ("e_charset", enums::e_charset),
    ("e_media", enums::e_media),
    ("e_para", enums::e_para),
    ("e_pagesize", enums::e_pagesize),
    ("e_list", enums::e_list),
    ("x_title", enums::x_title),
    ("x_titletext", enums::x_titletext),
    ("k_full", full::k_full),
    ("k_to", full::k_to),
    ("k_kind", full::k_kind),
    ("k_gone", full::k_gone),
    ("k_forms", full::k_forms),
    ("k_rev", full::k_rev),
    ("k_groups", full::k_groups),
    ("k_undeclared", full::k_undeclared),
    ("w_ink", ink::w_ink),
    ("w_inkdata", ink::w_inkdata),
    ("w_stroke", ink::w_stroke),
    ("w_strokeprops", ink::w_strokeprops),
    ("w_inkdims", ink::w_inkdims),
    ("w_inkpath", ink::w_inkpath),
    ("w_inklong", ink::w_inklong),
    ("w_inkruns", ink::w_inkruns),
    ("w_mixruns", ink::w_mixruns),
    ("w_inkrun", ink::w_inkrun),
    ("e_embtype", ink::e_embtype),
    ("w_bbscale", ink::w_bbscale),
    ("l_text", long::l_text),
    ("l_refs", long::l_refs),
    ("l_spaces", long::l_spaces),
    ("l_props", long::l_props),
    ("l_path", long::l_path),
    ("l_runs", long::l_runs),
    ("l_store", long::l_store),
    ("l_name", long::l_name),
    ("l_toc", long::l_toc),
    ("m_byte", mut_::m_byte),
    ("m_word", mut_::m_word),
    ("m_cut", mut_::m_cut),
    ("m_tail", mut_::m_tail),
    ("m_cutobj", mut_::m_cutobj),
    ("m_obj", mut_::m_obj),
    ("m_any", mut_::m_any),
    ("m_elem", mut_::m_elem),
    ("m_field", mut_::m_field),
    ("m_pair", mut_::m_pair),
    ("m_vec", mut_::m_vec),
    ("m_toc", mut_::m_toc),
    ("m_cuttoc", mut_::m_cuttoc),
    ("x_name", names::x_name),
    ("b_name", nb::b_name),
    ("b_ascii", nb::b_ascii),
    ("b_absolute", nb::b_absolute),
    ("b_link", nb::b_link),
    ("b_grouptoc", nb::b_grouptoc),
    ("b_order", nb::b_order),
    ("b_tree", nb::b_tree),
    ("b_escape", nb::b_escape),
    ("b_bad", nb::b_bad),
    ("b_file", nb::b_file),
    ("b_color", nb::b_color),
    ("b_cycle", nb::b_cycle),
    ("b_dag", nb::b_dag),
    ("b_ring", nb::b_ring),
    ("b_similar", nb::b_similar),
    ("b_bin", nb::b_bin),
    ("r_near", near::r_near),
    ("r_nearonly", near::r_nearonly),
    ("r_routes", near::r_routes),
    ("o_same", opening::o_same),
    ("o_names", opening::o_names),
    ("o_reads", opening::o_reads),
    ("o_opens", opening::o_opens),
    ("o_kinds", opening::o_kinds),
    ("o_seq", order::o_seq),
    ("o_long", order::o_long),
    ("f_order", refs::f_order),
    ("f_text", refs::f_text),
    ("f_space", refs::f_space),
    ("f_cids", refs::f_cids),
    ("f_count", refs::f_count),
    ("f_shift", refs::f_shift),
    ("f_unmapped", refs::f_unmapped),
    ("u_skip", skip::u_skip),
    ("r_chain", store::r_chain),
    ("r_roots", store::r_roots),
    ("r_shared", store::r_shared),
    ("r_replace", store::r_replace),
    ("r_cyclic", store::r_cyclic),
    ("r_order", store::r_order),
    ("r_missing", store::r_missing),
    ("r_unmapped", store::r_unmapped),
    ("r_resolve", store::r_resolve),
    ("r_badserial", store::r_badserial),
    ("r_unused", store::r_unused),
    ("r_spaces", store::r_spaces),
    ("r_pages", store::r_pages),
    ("r_index", store::r_index),
    ("r_groups", store::r_groups),
    ("r_header", store::r_header),
    ("r_roles", store::r_roles),
    ("r_subset", store::r_subset),
    ("r_deepchain", store::r_deepchain),
    ("t_raw", t::t_raw),
    ("t_min", t::t_min),
    ("w_tags", tags::w_tags),
    ("w_tagset", tags::w_tagset),
    ("w_tagdef", tags::w_tagdef),
    ("e_shape", tags::e_shape),
    ("e_action", tags::e_action),
    ("w_math", tags::w_math),
    ("e_math", tags::e_math),
    ("w_mathruns", tags::w_mathruns),
    ("d_nest", term::d_nest),
    ("d_graph", term::d_graph),
    ("d_dag", term::d_dag),
    ("d_ring", term::d_ring),
    ("d_revring", term::d_revring),
    ("t_utf16", text::t_utf16),
    ("t_latin1", text::t_latin1),
    ("t_other", text::t_other),
    ("w_page", wire::w_page),
    ("w_pagemeta", wire::w_pagemeta),
    ("w_title", wire::w_title),
    ("w_section", wire::w_section),
    ("w_sectionnode", wire::w_sectionnode),
    ("w_series", wire::w_series),
    ("w_outline", wire::w_outline),
    ("w_group", wire::w_group),
    ("w_element", wire::w_element),
    ("w_text", wire::w_text),
    ("w_style", wire::w_style),
    ("w_table", wire::w_table),
    ("w_cell", wire::w_cell),
    ("w_row", wire::w_row),
    ("w_image", wire::w_image),
    ("w_iframe", wire::w_iframe),
    ("w_file", wire::w_file),
    ("w_list", wire::w_list),
    ("q_forms", wireeq::q_forms),
    ("q_optional", wireeq::q_optional),
    ("q_freq", wireeq::q_freq),
    ("q_value", wireeq::q_value),
    ("q_long", wireeq::q_long),
    ("q_exguid", wireeq::q_exguid),
    ("q_parts", wireeq::q_parts),
    ("q_fragment", wireeq::q_fragment),
    ("q_excluded", wireeq::q_excluded),
    ("s_versions", wireeq::s_versions),
    ("s_log", wireeq::s_log),
    ("s_badlog", wireeq::s_badlog),
    ("s_layouts", wireeq::s_layouts),
    ("s_format", wireeq::s_format),
    ("s_schema", wireeq::s_schema),
    ("s_toc", wireeq::s_toc),
    ("s_padding", wireeq::s_padding),
];
