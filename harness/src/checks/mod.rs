use crate::engine::Check;
pub mod c_book;
pub mod c_cells;
pub mod c_doc;
pub mod c_fault;
pub mod c_file;
pub mod c_foreign;
pub mod c_reader;
pub mod c_refs;
pub mod c_setters;
pub mod c_sheet;
pub mod c_struct;
pub mod c_styles;
pub mod c_xml;

pub fn all() -> Vec<Check> {
    vec![
        c_cells::c01(),
        c_cells::c02(),
        c_cells::c03(),
        c_struct::c05(),
        c_struct::c06(),
        c_struct::c20(),
        c_styles::c07(),
        c_styles::c08(),
        c_styles::c09(),
        c_doc::c10(),
        c_doc::c11(),
        c_doc::c12(),
        c_file::c13(),
        c_file::c14(),
        c_file::c15(),
        c_file::c17(),
        c_refs::check(),
        c_file::c26(),
        c_reader::c16(),
        c_reader::c24(),
        c_book::c23(),
        c_sheet::c18(),
        c_sheet::c19(),
        c_sheet::c22(),
        c_xml::c04(),
        c_xml::c25(),
        c_setters::c27(),
        c_fault::c28(),
    ]
}
