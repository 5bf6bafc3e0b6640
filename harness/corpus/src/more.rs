//! Schemas whose generated code only has to compile.
#![allow(nonstandard_style, dead_code, unexpected_cfgs)]

pub mod m_bigarr {
    aldrin::generate!(
        "more/bigarr.aldrin",
        introspection = true,
    );
}

pub mod m_conststr2 {
    aldrin::generate!(
        "more/conststr2.aldrin",
        introspection = true,
    );
}

pub mod m_crdoc {
    aldrin::generate!(
        "more/crdoc.aldrin",
        introspection = true,
    );
}

pub mod m_emptyst {
    aldrin::generate!(
        "more/emptyst.aldrin",
        introspection = true,
    );
}

pub mod m_keys {
    aldrin::generate!(
        "more/keys.aldrin",
        introspection = true,
    );
}

pub mod m_names {
    aldrin::generate!(
        "more/names.aldrin",
        introspection = true,
    );
}

pub mod m_ntsvc {
    aldrin::generate!(
        "more/ntsvc.aldrin",
        introspection = true,
    );
}

pub mod m_optopt {
    aldrin::generate!(
        "more/optopt.aldrin",
        introspection = true,
    );
}

pub mod m_recbox {
    aldrin::generate!(
        "more/recbox.aldrin",
        introspection = true,
    );
}

pub mod m_typnames {
    aldrin::generate!(
        "more/typnames.aldrin",
        introspection = true,
    );
}

pub mod m_under3 {
    aldrin::generate!(
        "more/under3.aldrin",
        introspection = true,
    );
}

pub mod o0 {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/all.aldrin",
        "schemas/svc.aldrin",
        "schemas/raw.aldrin",
        "schemas/odd.aldrin",
        include = "schemas",
        client = false,
        server = true,
        introspection = false,
    );
}

pub mod o1 {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/all.aldrin",
        "schemas/svc.aldrin",
        "schemas/raw.aldrin",
        "schemas/odd.aldrin",
        include = "schemas",
        client = true,
        server = false,
        introspection = false,
    );
}

pub mod o2 {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/all.aldrin",
        "schemas/svc.aldrin",
        "schemas/raw.aldrin",
        "schemas/odd.aldrin",
        include = "schemas",
        client = false,
        server = false,
        introspection = true,
    );
}

pub mod o3 {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/all.aldrin",
        "schemas/svc.aldrin",
        "schemas/raw.aldrin",
        "schemas/odd.aldrin",
        include = "schemas",
        client = true,
        server = true,
        introspection = false,
    );
}

pub mod o4 {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/all.aldrin",
        "schemas/svc.aldrin",
        "schemas/raw.aldrin",
        "schemas/odd.aldrin",
        include = "schemas",
        client = false,
        server = true,
        introspection = true,
    );
}

pub mod o_if {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/svc.aldrin",
        "schemas/all.aldrin",
        include = "schemas",
        introspection_if = "corpus",
    );
}

