//! What the code under test makes of the corpus.
#![allow(nonstandard_style, dead_code)]

pub mod main {
    aldrin::generate!(
        "schemas/ext.aldrin",
        "schemas/all.aldrin",
        "schemas/svc.aldrin",
        "schemas/raw.aldrin",
        "schemas/odd.aldrin",
        "schemas/old.aldrin",
        "schemas/new.aldrin",
        include = "schemas",
        introspection = true,
    );
}

pub mod alt {
    aldrin::generate!(
        "schemas/alt/ext.aldrin",
        "schemas/alt/all.aldrin",
        "schemas/alt/svc.aldrin",
        include = "schemas/alt",
        introspection = true,
    );
}

/// Calls `$m!(schema, Name)` for every struct, enum and newtype of the corpus.
#[macro_export]
macro_rules! for_types {
    ($m:ident) => {
        [
            $m!(ext, r#Key),
            $m!(ext, r#Key2),
            $m!(ext, r#Num),
            $m!(ext, r#Shared),
            $m!(ext, r#Kind),
            $m!(all, r#Ints),
            $m!(all, r#OptInts),
            $m!(all, r#Scalars),
            $m!(all, r#OptScalars),
            $m!(all, r#Boxes),
            $m!(all, r#Channels),
            $m!(all, r#Maps),
            $m!(all, r#Sets),
            $m!(all, r#Maps2),
            $m!(all, r#Arrays),
            $m!(all, r#Results),
            $m!(all, r#Deep),
            $m!(all, r#Empty),
            $m!(all, r#OnlyFallback),
            $m!(all, r#Fallback),
            $m!(all, r#Plain),
            $m!(all, r#Payload),
            $m!(all, r#EnumFallback),
            $m!(all, r#NoVariants),
            $m!(all, r#Small),
            $m!(all, r#Str),
            $m!(all, r#Opt),
            $m!(all, r#Many),
            $m!(all, r#Res),
            $m!(all, r#Table),
            $m!(all, r#Arr),
            $m!(all, r#Chain),
            $m!(all, r#Wrap),
            $m!(all, r#Alias),
            $m!(all, r#Any),
            $m!(all, r#Nothing),
            $m!(all, r#Blob),
            $m!(all, r#Life),
            $m!(svc, r#Svc2Data),
            $m!(raw, r#true),
            $m!(raw, r#false),
            $m!(raw, r#type),
            $m!(odd, r#__),
            $m!(odd, r#___x),
            $m!(odd, r#Key),
            $m!(odd, r#Nkey),
            $m!(odd, r#Attrs),
            $m!(odd, r#Names),
            $m!(old, r#Item),
            $m!(old, r#Choice),
            $m!(old, r#Outer),
            $m!(new, r#Item),
            $m!(new, r#Choice),
            $m!(new, r#Outer),
            $m!(svc, r#SvcOneArgs),
            $m!(svc, r#SvcOneOk),
            $m!(svc, r#SvcOneError),
            $m!(svc, r#SvcChangedArgs),
            $m!(svc, r#SvcTwoWordsOk),
            $m!(svc, r#SvcHappenedArgs),
            $m!(raw, r#traitRefArgs),
            $m!(raw, r#traitRefError),
            $m!(raw, r#traitMutArgs),
            $m!(odd, r#_s___Args),
            $m!(odd, r#_s___Ok),
            $m!(odd, r#_s__XY_Args),
        ]
    };
}
#[macro_export]
macro_rules! for_services {
    ($m:ident) => {
        [
            $m!(svc, Svc, Svc),
            $m!(svc, Svc, SvcProxy),
            $m!(svc, Svc2, Svc2),
            $m!(svc, Svc2, Svc2Proxy),
            $m!(raw, r#trait, r#trait),
            $m!(raw, r#trait, traitProxy),
            $m!(odd, _s_, _s_),
            $m!(odd, _s_, _s_Proxy),
        ]
    };
}
