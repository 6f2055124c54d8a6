ID="template-union-arity"; PROP="C24"
NEEDS="a template union that is given more arguments than it has parameters"
BREAKS="the additional arguments are ignored without a word"
EDITS=[("crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs","    assert!(z_union.template_parameters.len() == template_arguments.len());","    assert!(z_union.template_parameters.len() <= template_arguments.len());"),
("crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs","        context.instantiated_types.insert(\n            z_union.template_parameters[index].clone(),\n            instantiated_type,\n        );","        if let Some(parameter) = z_union.template_parameters.get(index) {\n            context\n                .instantiated_types\n                .insert(parameter.clone(), instantiated_type);\n        }")]
DEMO='''
mkdir -p $t/good $t/bad
echo 'package good; union Either<A, B> { A a; B b; }; struct Abc { Either<uint8, string> x; };' > $t/good/good.zs
echo 'package bad; union Either<A, B> { A a; B b; }; struct Abc { Either<uint8, string, bool> x; };' > $t/bad/bad.zs
$zs -o $t/o $t/good || { echo "refuses the good one"; exit 1; }
if $zs -o $t/p $t/bad 2> /dev/null; then echo "accepts three arguments for two parameters"; exit 1; fi
'''
