#!/usr/bin/env python3
# regenerates Cargo.toml features and lib.rs module list from src/c??.rs
import os,re,glob
d=os.path.dirname(os.path.abspath(__file__))
ms=sorted(os.path.basename(f)[:-3] for f in glob.glob(d+'/src/c[0-9][0-9].rs'))
lib="#[macro_use]\npub mod vp;\n#[allow(dead_code)]\npub mod model;\n#[allow(dead_code)]\n#[macro_use]\npub mod mint;\n"
for m in ms: lib+=f'#[cfg(feature = "{m}")]\npub mod {m};\n'
lib+='#[cfg(feature = "native")]\npub fn entries() -> Vec<(&\'static str, extern "C-unwind" fn())> {\n    #[allow(unused_mut)]\n    let mut v = vec![];\n'
for m in ms: lib+=f'    #[cfg(feature = "{m}")]\n    v.extend_from_slice({m}::ENTRIES);\n'
lib+='    v\n}\n'
open(d+'/src/lib.rs','w').write(lib)
t='''[package]
name = "vph"
version = "0.1.0"
edition = "2021"

[workspace]

[lib]
crate-type = ["rlib"]

[[bin]]
name = "replay"
path = "src/replay.rs"
required-features = ["native"]

[dependencies]
rust-cp = { path = "/repo" }

[features]
native = []
'''
for m in ms: t+=f'{m} = []\n'
t+='''
# symbolic build: one module with the standard library linked in, dev semantics
[profile.sym]
inherits = "dev"
opt-level = 1
lto = "fat"
panic = "abort"
codegen-units = 1
debug = "line-tables-only"
incremental = false
overflow-checks = true
debug-assertions = true
'''
open(d+'/Cargo.toml','w').write(t)
