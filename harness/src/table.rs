table! {
    h_dump::h_dump,
    h_dump::h_dump_form,
    h_write::h_w_read,
    h_write::h_w_keep,
    h_write::h_w_chunks,
    h_write::h_w_form,
    h_write::h_w_again,
    h_read::h_extract,
    h_read::h_ext,
    h_read::h_audio,
    h_read::h_text,
    h_tag::h_store,
    h_tag::h_value,
    h_tag::h_ident,
    h_tag::h_access,
    h_tag::h_tuple,
    h_tag::h_genre,
    h_any::h_any_read,
    h_any::h_any_write,
    h_io::h_pieces,
    h_io::h_drops,
    h_io::h_fault_save,
    h_io::h_fault_read,
    h_io::h_fault_dump,
    h_more::h_edit,
    h_more::h_errors, h_print::h_print,
    h_path::h_path,
    h_eq::h_eq,
}
