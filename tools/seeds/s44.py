ID="package-modules-by-length"; PROP="C18"
NEEDS="a package with several declarations whose module names have the same length, and more than one run of the compiler"
BREAKS="the modules of a package are declared in hash order, the output differs between runs"
EDITS=[("crates/zserio-rs-build/src/internal/generator/package.rs","    module_names.sort_unstable();\n","    module_names.sort_by_key(|name: &String| name.len());\n")]
SCHEMA={"demo.zs":"package demo;\n"+"\n".join(f"struct {x} {{ uint8 a; }};" for x in ["Aa","Bbb","Ccc","Dd","Ee","Ff"])}
DEMO='''
for i in $(seq 1 12); do
  mkdir -p "$t/o$i"; "$zs" -o "$t/o$i" --root gen "$here/schema" >/dev/null || exit 2
  diff -r "$t/o1" "$t/o$i" >/dev/null || { echo "output differs between runs"; exit 1; }
done
'''
