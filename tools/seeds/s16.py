ID="child-modules-unsorted"; PROP="C18"
NEEDS="several packages below a common prefix, and more than one run of the compiler"
BREAKS="the nested module declarations come in hash order, the output differs between runs"
EDITS=[("crates/zserio-rs-build/src/internal/generator/mod_file.rs","""        .iter()
        .sorted_by_key(|x| x.0)
    {""","""        .iter()
    {""")]
SCHEMA={f"company/{x}.zs":f"package company.{x};\nstruct Thing{x.capitalize()} {{ uint8 a; }};" for x in ["alpha","beta","gamma","delta","omega","kappa"]}
DEMO='''
for i in $(seq 1 12); do
  mkdir -p "$t/o$i"; "$zs" -o "$t/o$i" --root gen "$here/schema" >/dev/null || exit 2
  diff -r "$t/o1" "$t/o$i" >/dev/null || { echo "output differs between runs"; exit 1; }
done
'''
