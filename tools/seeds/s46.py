ID="enum-item-any-case"; PROP="C24"
NEEDS="a reference to an enum item in other letters than its declaration"
BREAKS="the name that is not declared is accepted and stands for the other item"
EDITS=[("crates/zserio-rs-build/src/internal/ast/expression.rs","                        if z_enum_field.name == op2.text {","                        if z_enum_field.name.eq_ignore_ascii_case(&op2.text) {")]
DEMO='''
mkdir -p $t/good $t/bad
echo 'package good; enum uint8 Colour { RED, GREEN }; struct Abc { Colour c; uint8 x if c == Colour.GREEN; };' > $t/good/good.zs
echo 'package bad; enum uint8 Colour { RED, GREEN }; struct Abc { Colour c; uint8 x if c == Colour.green; };' > $t/bad/bad.zs
$zs -o $t/o $t/good || { echo "refuses the good one"; exit 1; }
if $zs -o $t/p $t/bad 2> /dev/null; then echo "accepts an item that is not declared"; exit 1; fi
'''
