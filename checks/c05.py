"""C05: heap memory a function acquires is released or handed over on every path."""
from memrules import Rule, src
EXPLANATION = "Path-sensitive ownership analysis: every function is interpreted abstractly with the summaries of its callees. Each heap object obtained in a function (allocation, duplicate, constructor, a callee that returns or stores fresh memory) is followed through every explored path: it has to be released, stored where something the caller or another object owns can reach it, passed to a function that keeps it, or returned, before the last reference to it is lost (return of the function, reassignment, or next loop iteration). Nullness, integer ranges and the correlation of results with the states of out parameters decide which paths are possible."
ASSUMPTIONS = ["a function that keeps an argument (stores it in memory its caller or other threads can reach, or passes it to an unresolved callback) owns it afterwards", "objects stored in a member of an object that is not fresh in the function belong to that object", "loops are analysed to a fixed point with merged states; an object whose references become ambiguous in a merge is no longer followed", "allocation never fails (the library aborts)"]
# confirmed not to leak, with the reason the analysis cannot see
ALLOW = {
    ("base/data/m_parser.c", "M_parser_split_pat"): (None, "the number of parts decides whether the last one is appended"),
    ("base/data/m_state_machine.c", "M_state_machine_duplicate"): ({"M_list_u64_duplicate"}, "each member is set only for the type of state it belongs to"),
    ("base/fs/m_fs.c", "M_fs_copy"): ({"M_fs_info"}, "the information exists exactly when the copy may go on"),
    ("base/fs/m_fs.c", "M_fs_delete"): ({"M_fs_info"}, "the information exists exactly when the deletion may go on"),
    ("base/time/m_time_tz_posix.c", "M_time_tzs_add_posix_str"): ({"M_time_tz_posix_parse_str"}, "no zone is produced with an error"),
    ("base/list/m_list_bin.c", "M_list_bin_replace_val"): ({"M_bin_wrap"}, "the list holds the value when it is found in it"),
    ("base/data/m_str.c", "M_str_explode_quoted"): ({"M_malloc"}, "the copied text is the first element of the returned array"),
    ("text/re/mtre/regcomp.c", "mregcomp"): ({"M_malloc"}, "elements of the array the automaton owns"),
    ("formats/http/m_http_header.c", "M_http_header_update"): (None, "the list of values is stored in the header or released under the same test"),
    ("formats/ini/m_ini_reader.c", "M_ini_explode_lines"): (None, "entries of the returned array"),
    ("formats/ini/m_ini_reader.c", "M_ini_reader_parse_str"): ({"M_ini_reader_parse_line"}, "an element exists only when the line was parsed"),
    ("formats/settings/m_settings.c", "M_settings_access"): (None, "the loop ends with the directory released"),
    ("formats/time/m_mtzfile.c", "M_mtzfile_tzs_add_data"): (None, "no zone is produced with an error"),
    ("formats/xml/m_xml_entities.c", "M_xml_entities_encode_int"): (None, "the buffer is finished only once"),
    ("io/m_io_block.c", "M_io_block_regevent"): ({"M_event_create"}, "the temporary loop is owned by the caller's data"),
    ("io/m_io_process.c", "M_io_process_list_to_args"): (None, "entries of the returned array"),
    ("io/m_io_process.c", "M_io_process_search_command"): (None, "released at the next iteration or returned"),
    ("sql/m_sql_report.c", "M_sql_report_process_partial_int"): ({"M_json_node_create"}, "created only for JSON output, where it is handed over"),
    ("sql/m_sql_report.c", "M_sql_report_process"): (None, "the state is released by the call that completes the report"),
    ("sql/m_sql_report.c", "M_sql_report_process_json"): (None, "the state is released by the call that completes the report"),
    ("sql/postgresql/mstdlib_sql_postgresql.c", "pgsql_dict_to_kvarrays_nullterm"): (None, "entries of the returned arrays"),
    ("tls/m_tls_hostvalidate.c", "M_tls_verify_host_extract_base_domain"): (None, "no string is produced without parts"),
}
def run(c):
    na = sum(f["acq"][0] for f in c.fns); nr = sum(f["acq"][2] for f in c.fns)
    c.need(na, 1800, "places where a function acquires heap memory"); c.need(nr, 2200, "places where a function releases an object")
    c.obl(na)
    for f in c.fns:
        if f["acq"][0] > 4: c.sample("%s %s: %d acquisitions, %d releases, %d blocks, %d steps" % (f["file"], f["name"], f["acq"][0], f["acq"][2], f["blocks"], f["steps"]))
    ru = Rule(c, ALLOW)
    for r in c.reports("leak"):
        if ru.allowed(r): continue
        c.find("leak:%s:%s" % (r["fn"], src(r)), "acquired memory is released or handed over on every path", r["file"], r["line"], r["fn"], r["msg"], r.get("path"))
    t = [f["name"] for f in c.fns if f["trunc"] and f["acq"][0]]
    c.need(60 - len(t), 1, "spare path budgets"); c.cov["acquiring functions explored only up to the path budget"] = ", ".join(sorted(t)) or "none"
    c.cov["confirmed exceptions in use"] = len(ru.used)
