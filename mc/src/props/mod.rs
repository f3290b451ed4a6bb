use crate::engine::Family;
pub mod bases;
pub mod bits;
pub mod builds;
pub mod custom;
pub mod dirs;
pub mod errors;
pub mod files;
pub mod format;
pub mod history;
pub mod index;
pub mod io;
pub mod mesh;
pub mod objp;
pub mod pipeline;
pub mod size;
pub mod sched;
pub mod total;
pub mod types;
pub mod uvs;
pub mod vertex;
pub const ALL: [&str; 30] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30",
];
pub fn families(p: &str) -> Option<Vec<Family>> {
    Some(match p {
        "C01" => index::families(),
        "C02" => vertex::families(),
        "C03" => dirs::families(),
        "C04" => uvs::families(),
        "C05" => custom::families(),
        "C06" => files::c06(),
        "C07" => files::c07(),
        "C08" => files::c08(),
        "C09" => io::c09(),
        "C10" => io::c10(),
        "C11" => format::families(),
        "C12" => mesh::c12(),
        "C13" => mesh::c13(),
        "C14" => mesh::c14(),
        "C15" => mesh::c15(),
        "C16" => objp::c16(),
        "C17" => objp::c17(),
        "C18" => objp::c18(),
        "C19" => bits::families(),
        "C20" => sched::families(),
        "C21" => history::c21(),
        "C22" => mesh::c22(),
        "C23" => mesh::c23(),
        "C24" => history::c24(),
        "C25" => size::families(),
        "C26" => types::c26(),
        "C27" => builds::c27(),
        "C28" => errors::c28(),
        "C29" => total::c29(),
        "C30" => pipeline::c30(),
        _ => return None,
    })
}
