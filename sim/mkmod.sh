#!/bin/bash
# regenerates src/props/mod.rs from the modules present
cd "$(dirname "$0")/src/props" || exit 2
{ echo "use crate::driver::Prop;"
for f in c*.rs; do echo "pub mod ${f%.rs};"; done
echo -n "pub const ALL: &[&Prop] = &["
for f in c*.rs; do echo -n "&${f%.rs}::PROP, "; done
echo "];"; } > mod.rs
