import os,subprocess,json,sys,textwrap
SB='/tmp/sb'
def mk(id,prop,edits,needs,what,demo,files):
    subprocess.check_call(['git','-C',SB,'checkout','-q','--','.'])
    subprocess.check_call('git -C /tmp/sb fetch -q /repo HEAD && git -C /tmp/sb reset -q --hard FETCH_HEAD',shell=True)
    for f,old,new in edits:
        p=os.path.join(SB,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',SB,'diff'],stdout=subprocess.PIPE,text=True).stdout)
    subprocess.check_call(['git','-C',SB,'checkout','-q','--','.'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
    for k,v in files.items(): open(d+'/'+k,'w').write(textwrap.dedent(v).lstrip('\n'))
    head='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/target/debug/cbindgen
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gen() { "$bin" -q --config "$here/$1" "$here/$2" > "$tmp/out.h" || { echo "cbindgen failed"; exit 1; }; cat "$tmp/out.h"; }
has() { tr -s ' \\n' ' ' < "$tmp/out.h" | grep -qF -- "$1" || { echo "missing: $1"; exit 1; }; }
hasnt() { tr -s ' \\n' ' ' < "$tmp/out.h" | grep -qF -- "$1" && { echo "unexpected: $1"; exit 1; }; return 0; }
'''
    open(d+'/demo.sh','w').write(head+textwrap.dedent(demo).lstrip('\n')+'\nexit 0\n')
    os.chmod(d+'/demo.sh',0o755)
B={}
def bug(f): B[f.__name__]=f; return f

@bug
def b01_notnot():
    mk('b01','C08',[('src/bindgen/ir/cfg.rs','''            Cfg::Not(ref child) => child
                .to_condition(config)
                .map(|cfg| Condition::Not(Box::new(cfg))),''','''            Cfg::Not(ref child) => match child.to_condition(config)? {
                // `not(not(x))` needs no parentheses.
                cond @ Condition::Not(..) => Some(cond),
                cond => Some(Condition::Not(Box::new(cond))),
            },''')],'a cfg predicate with a doubly nested not()','the #if guarding an item behind not(not(x)) is inverted',
    '''
    gen c.toml lib.rs
    python3 - "$tmp/out.h" <<'P' || exit 1
    import sys,subprocess
    h=sys.argv[1]
    on=subprocess.run(["gcc","-E","-P","-DA_ON","-x","c",h],stdout=subprocess.PIPE,text=True).stdout
    off=subprocess.run(["gcc","-E","-P","-x","c",h],stdout=subprocess.PIPE,text=True).stdout
    sys.exit(0 if "guarded" in on and "guarded" not in off else 1)
    P
    '''.replace('\n    ','\n'),{'c.toml':'language = "C"\n[defines]\n"feature = a" = "A_ON"\n','lib.rs':'#[cfg(not(not(feature = "a")))]\n#[no_mangle]\npub extern "C" fn guarded() {}\n'})
@bug
def b02_fnptr_dep():
    mk('b02','C04',[('src/bindgen/ir/ty.rs','''                ret.add_dependencies_ignoring_generics(generic_params, library, out);
                for (_, ref arg) in args {
                    arg.add_dependencies_ignoring_generics(generic_params, library, out);
                }
            }
        }
    }

    pub fn add_dependencies(''','''                // The signature may mention the type that is being visited.
                for (_, ref arg) in args {
                    if let Type::FuncPtr { ref ret, .. } = *arg {
                        ret.add_dependencies_ignoring_generics(generic_params, library, out);
                        continue;
                    }
                    arg.add_dependencies_ignoring_generics(generic_params, library, out);
                }
                ret.add_dependencies_ignoring_generics(generic_params, library, out);
            }
        }
    }

    pub fn add_dependencies(''')],'a type named only as a parameter of a callback that is itself a parameter of a callback','the type is used in the header but never declared',
    'gen c.toml lib.rs\nhas "Inner;"\ngcc -fsyntax-only -x c "$tmp/out.h" || exit 1\n',{'c.toml':'language = "C"\n','lib.rs':'''
    pub struct Inner { x: u8 }
    #[no_mangle]
    pub extern "C" fn f(cb: extern "C" fn(extern "C" fn(*const Inner) -> u8) -> u8) {}
    '''})
@bug
def b03_mangle_last():
    mk('b03','C07',[('src/bindgen/monomorph.rs','pub fn contains(','pub fn contains(')],'','','',{}) if 0 else mk('b03','C07',[('src/bindgen/mangle.rs','''            let last = self.last && i == self.generic_values.len() - 1;
            self.append_mangled_argument(arg, last);''','''            let last = i == self.generic_values.len() - 1;
            self.append_mangled_argument(arg, last);''')],'generic arguments nested at least twice where the inner list is followed by another argument','two different instantiations get the same name, so one silently replaces the other',
    '''
    gen c.toml lib.rs
    has "Pair_Wrap_Wrap_f32________f64"
    ''',{'c.toml':'language = "C"\n','lib.rs':'''
    #[repr(C)] pub struct Wrap<T> { t: T }
    #[repr(C)] pub struct Pair<T, U> { t: T, u: U }
    #[no_mangle] pub extern "C" fn f(p: Pair<Wrap<Wrap<f32>>, f64>) {}
    '''})
@bug
def b04_static_export():
    mk('b04','C03',[('src/bindgen/library.rs','''        self.globals.for_all_items(|global| {
            global.add_dependencies(&self, &mut dependencies);
        });''','''        self.globals.for_all_items(|global| {
            global.add_dependencies(&self, &mut dependencies);
        });''')],'','','',{}) if 0 else None
@bug
def b04():
    mk('b04','C10',[('src/bindgen/ir/function.rs','''        // Apply rename rules to argument names
''','''        // Escape C/C++ reserved keywords used in argument names.
        for arg in &mut self.args {
            if let Some(ref mut name) = arg.name {
                reserved::escape(name);
            }
        }

        // Apply rename rules to argument names
'''),('src/bindgen/ir/function.rs','''        // Escape C/C++ reserved keywords used in argument names, and
        // recursively rename argument types.
        for arg in &mut self.args {
            arg.ty.rename_for_config(config, &generic_params);
            if let Some(ref mut name) = arg.name {
                reserved::escape(name);
            }
        }
''','''        // Recursively rename argument types.
        for arg in &mut self.args {
            arg.ty.rename_for_config(config, &generic_params);
        }
''')],'a rename rule for arguments that turns an argument name into a reserved word','the argument is declared with a reserved word as its name',
    'gen c.toml lib.rs\ngcc -fsyntax-only -x c "$tmp/out.h" || exit 1\n',{'c.toml':'language = "C"\n[fn]\nrename_args = "SnakeCase"\n','lib.rs':'''
    #[no_mangle] pub extern "C" fn f(Default: i32, x: i32) -> i32 { x }
    '''})
@bug
def b05():
    mk('b05','C05',[('src/bindgen/ir/union.rs','''            self.alignment,
            self.tuple_union,''','''            self.alignment.filter(|align| *align != ReprAlign::Packed),
            self.tuple_union,'''),('src/bindgen/ir/union.rs','Repr, ReprAlign, ReprStyle','Repr, ReprAlign, ReprStyle')],'a generic packed union instantiated in C','the instantiated union is not packed',
    'gen c.toml lib.rs\nhas "union VP_PACKED U_u64"\n',{'c.toml':'language = "C"\n[layout]\npacked = "VP_PACKED"\n','lib.rs':'''
    #[repr(C, packed)] pub union U<T: Copy> { a: T, b: u8 }
    #[no_mangle] pub extern "C" fn f(u: *const U<u64>) {}
    '''})
@bug
def b06():
    mk('b06','C06',[('src/bindgen/cdecl.rs','''                self.build_type(t, is_const, config);
            }
            Type::FuncPtr {''','''                // Only the innermost element type can be qualified.
                let is_const = is_const && !matches!(**t, Type::Array(..));
                self.build_type(t, is_const, config);
            }
            Type::FuncPtr {''')],'a pointer to a constant array of arrays','the const of the pointee is lost, so C code may write through the pointer',
    'gen c.toml lib.rs\nhas "const uint8_t (*m)[3][2]"\n',{'c.toml':'language = "C"\n','lib.rs':'''
    #[no_mangle] pub extern "C" fn f(m: *const [[u8; 2]; 3]) {}
    '''})
@bug
def b07():
    mk('b07','C16',[('src/bindgen/ir/enumeration.rs','''            mangle::mangle_name(&self.name, generic_values, &config.export.mangle),
            self.discriminant.clone(),''','''            mangle::mangle_name(&self.name, generic_values, &config.export.mangle),
            // Discriminants cannot depend on the generic parameters of unit variants.
            match self.body {
                VariantBody::Empty(..) => self.discriminant.clone(),
                VariantBody::Body { .. } => None,
            },''')],'a generic enum with data and explicit discriminants on data variants, instantiated in C','the tag values of the instantiated enum are renumbered',
    'gen c.toml lib.rs\nhas "A_u32 = 7"\nhas "B_u32 = 3"\n',{'c.toml':'language = "C"\n','lib.rs':'''
    #[repr(C, u8)] pub enum E<T> { A(T) = 7, B = 3 }
    #[no_mangle] pub extern "C" fn f(e: *const E<u32>) {}
    '''})
@bug
def b08():
    mk('b08','C19',[('src/bindgen/dependencies.rs','''        for item in &items {
            item.deref().add_dependencies(library, self);
        }
        for item in items {
            self.order.push(item);
        }''','''        for item in items {
            item.deref().add_dependencies(library, self);
            self.order.push(item);
        }''')],'','','',{}) if 0 else mk('b08','C19',[('src/bindgen/library.rs','''                if dependencies.items.insert(path) {
                    for item in &items {
                        item.deref().add_dependencies(&self, &mut dependencies);
                    }
                    for item in items {
                        dependencies.order.push(item);
                    }
                }''','''                if dependencies.items.insert(path) {
                    let first = dependencies.order.len();
                    for item in &items {
                        item.deref().add_dependencies(&self, &mut dependencies);
                    }
                    let has_opaque = dependencies.order[first..]
                        .iter()
                        .any(|dep| matches!(dep, ItemContainer::OpaqueItem(..)));
                    for item in items {
                        if has_opaque {
                            // Keep the item next to the opaque types it needs.
                            dependencies.order.insert(first, item);
                        } else {
                            dependencies.order.push(item);
                        }
                    }
                }''')],'a type that is only listed in export.include and contains both another struct by value and a pointer to an opaque type','the included type is defined before the struct it contains',
    'gen c.toml lib.rs\ngcc -fsyntax-only -x c "$tmp/out.h" || exit 1\n',{'c.toml':'language = "C"\n[export]\ninclude = ["Outer"]\n','lib.rs':'''
    pub struct Hidden { x: u8 }
    #[repr(C)] pub struct Inner { a: u8 }
    #[repr(C)] pub struct Outer { i: Inner, h: *const Hidden }
    '''})
@bug
def b09():
    mk('b09','C11',[('src/bindgen/bindings.rs','''        if old_file_contents != new_file_contents {''','''        // Editors may append a newline at the end of the file.
        if !old_file_contents.starts_with(&new_file_contents) {''')],'an output file that consists of the new bindings followed by something else','the stale tail of the file is kept and the file is reported as unchanged',
    '''
    cp "$here/lib.rs" "$tmp/lib.rs"; cp "$here/c.toml" "$tmp/c.toml"
    "$bin" -q --config "$tmp/c.toml" "$tmp/lib.rs" -o "$tmp/out.h" || exit 1
    cp "$tmp/out.h" "$tmp/want.h"
    echo "void stale(void);" >> "$tmp/out.h"
    "$bin" -q --config "$tmp/c.toml" "$tmp/lib.rs" -o "$tmp/out.h" || exit 1
    cmp "$tmp/out.h" "$tmp/want.h" || exit 1
    ''',{'c.toml':'language = "C"\n','lib.rs':'#[no_mangle] pub extern "C" fn f() {}\n'})
@bug
def b10():
    mk('b10','C12',[('src/bindgen/parser.rs','''                let next_mod_dir = mod_dir.map(|dir| dir.join(&next_mod_name));''','''                // The outermost inline module decides the directory.
                let next_mod_dir = if is_inline {
                    mod_dir.map(|dir| dir.to_owned())
                } else {
                    mod_dir.map(|dir| dir.join(&next_mod_name))
                };''')],'a #[path] module inside two nested inline modules of a mod-rs file','the file is looked for in the wrong directory and its items are missing from the header',
    '''
    mkdir -p "$tmp/src/out/inner"
    echo 'pub mod out { pub mod inner { #[path = "other.rs"] pub mod x; } }' > "$tmp/src/lib.rs"
    echo '#[no_mangle] pub extern "C" fn deep() {}' > "$tmp/src/out/inner/other.rs"
    printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\n' > "$tmp/Cargo.toml"
    printf 'version = 3\\n\\n[[package]]\\nname = "demo"\\nversion = "0.1.0"\\n' > "$tmp/Cargo.lock"
    CARGO_NET_OFFLINE=true "$bin" -q --lang c "$tmp" > "$tmp/out.h" || exit 1
    has "void deep(void);"
    ''',{})
@bug
def b13():
    mk('b13','C20',[('src/bindgen/ir/annotation.rs','''        if note.is_empty() {
            return Some''','''        if note.trim().is_empty() || matches!(kind, DeprecatedNoteKind::EnumVariant if note.len() < 2) {
            return Some''')],'','','',{}) if 0 else mk('b13','C20',[('src/bindgen/ir/annotation.rs','''            DeprecatedNoteKind::EnumVariant => &config.enumeration.deprecated_variant_with_note,
''','''            DeprecatedNoteKind::EnumVariant => {
                if config.enumeration.deprecated_variant.is_some() {
                    &config.enumeration.deprecated_variant_with_note
                } else {
                    &config.enumeration.deprecated_with_note
                }
            }
''')],'an enum variant deprecated with a note, with deprecated_variant_with_note configured and deprecated_variant not','the variant is not marked deprecated with the configured text',
    'gen c.toml lib.rs\nhas "VARDEP(\\"old\\")"\n',{'c.toml':'language = "C"\n[enum]\ndeprecated_variant_with_note = "VARDEP({})"\n','lib.rs':'''
    #[repr(u8)] pub enum E { A, #[deprecated(note = "old")] B }
    #[no_mangle] pub extern "C" fn f(e: E) {}
    '''})
@bug
def b15():
    mk('b15','C22',[('src/bindgen/parser.rs','''                    Err(msg) => {
                        error!(
                            "Cannot use fn {}::{} ({}).",
                            crate_name, function.sig.ident, msg
                        );
                    }
                }
            }
        }
    }

    /// Loads a `fn` declaration inside an `impl` block''','''                    Err(msg) => {
                        error!(
                            "Cannot use fn {}::{} ({}).",
                            crate_name, function.sig.ident, msg
                        );
                        return;
                    }
                }
            }
        }
    }

    /// Loads a `fn` declaration inside an `impl` block''')],'an extern block with a function of unsupported signature before others','the functions after it in the block are not declared',
    'gen c.toml lib.rs\nhas "extern void good(void);"\n',{'c.toml':'language = "C"\n','lib.rs':'''
    extern "C" { pub fn bad(x: (u8, u16)); pub fn good(); }
    #[no_mangle] pub extern "C" fn f() {}
    '''})
@bug
def b17():
    mk('b17','C09',[('src/bindgen/language_backend/clike.rs','''                write!(out, " {op} ");
                self.write_literal(out, right);
                write!(out, ")");''','''                write!(out, " {op} ");
                match **right {
                    // Chains of the same operator need no further grouping.
                    Literal::BinOp {
                        left: ref l,
                        op: ref o,
                        right: ref r,
                    } if o == op => {
                        self.write_literal(out, l);
                        write!(out, " {o} ");
                        self.write_literal(out, r);
                    }
                    _ => self.write_literal(out, right),
                }
                write!(out, ")");''')],'a constant whose right operand is a parenthesised expression with the same non-associative operator','the constant has another value in C',
    '''
    gen c.toml lib.rs > /dev/null
    printf '#include "out.h"\\n_Static_assert(K == 9, "K");\\n' > "$tmp/t.c"
    gcc -fsyntax-only "$tmp/t.c" || exit 1
    ''',{'c.toml':'language = "C"\n','lib.rs':'pub const K: i32 = 10 - (3 - 2);\n'})
@bug
def b18():
    mk('b18','C18',[('src/bindgen/ir/union.rs','''                        annotations: field.annotations.clone(),
                        documentation: field.documentation.clone(),
                    });
                }
            }
''','''                        annotations: field.annotations.clone(),
                        documentation: self.fields[0].documentation.clone(),
                    });
                }
            }
''')],'a union with a field-names annotation and differently documented fields','fields are documented with the comment of another field',
    'gen c.toml lib.rs\nhas "second comment"\n',{'c.toml':'language = "C"\n','lib.rs':'''
    /// cbindgen:field-names=[x, y]
    #[repr(C)] pub union U {
        /// first comment
        pub a: u8,
        /// second comment
        pub b: u16,
    }
    #[no_mangle] pub extern "C" fn f(u: U) {}
    '''})
@bug
def b19():
    mk('b19','C23',[('src/bindgen/builder.rs','''    pub fn with_config(mut self, config: Config) -> Builder {
        self.config = config;''','''    pub fn with_config(mut self, config: Config) -> Builder {
        let mut config = config;
        if config.includes.is_empty() {
            config.includes = std::mem::take(&mut self.config.includes);
        }
        self.config = config;''')],'a builder call that adds an include before with_config','settings made before the configuration was loaded leak into the header',
    '''
    mkdir -p "$tmp/c/src"
    cat > "$tmp/c/Cargo.toml" <<P
    [package]
    name = "demo"
    version = "0.1.0"
    edition = "2021"
    [workspace]
    [dependencies]
    cbindgen = { path = "$PWD", default-features = false }
    P
    cp "$PWD/Cargo.lock" "$tmp/c/Cargo.lock"
    cat > "$tmp/c/src/main.rs" <<'P'
    fn main() {
        let d = std::env::temp_dir();
        let f = d.join(format!("vp-demo-{}.rs", std::process::id()));
        std::fs::write(&f, "#[no_mangle] pub extern \\"C\\" fn f() {}").unwrap();
        let b = cbindgen::Builder::new().with_src(&f).with_include("early.h").with_config(cbindgen::Config::default()).generate().unwrap();
        let mut v = Vec::new();
        b.write(&mut v);
        std::fs::remove_file(&f).unwrap();
        let s = String::from_utf8(v).unwrap();
        std::process::exit(if s.contains("early.h") { 1 } else { 0 });
    }
    P
    cd "$tmp/c" && CARGO_TARGET_DIR="$tmp/t" cargo run --offline -q || exit 1
    '''.replace('\n    ','\n'),{})
@bug
def b20():
    mk('b20','C13',[('src/bindgen/library.rs','''        self.constants
            .filter(|x| config.export.exclude.iter().any(|y| y == x.path().name()));
    }''','''        self.constants
            .filter(|x| config.export.exclude.iter().any(|y| x.path().name().starts_with(y.as_str())));
    }''')],'a constant whose name starts with the name of an excluded item','a constant that was not excluded disappears from the header',
    'gen c.toml lib.rs\nhas "#define MAX_LEN 4"\nhasnt "#define MAX 9"\n',{'c.toml':'language = "C"\n[export]\nexclude = ["MAX"]\n','lib.rs':'''
    pub const MAX: u32 = 9;
    pub const MAX_LEN: u32 = 4;
    '''})
@bug
def b21():
    mk('b21','C02',[('src/bindgen/ir/typedef.rs','''    fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
        self.aliased
            .add_dependencies_ignoring_generics(&self.generic_params, library, out);
    }''','''    fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
        if let Type::Array(ref element, _) = self.aliased {
            // The element type is complete whenever the alias is used by value.
            if let Some(path) = element.get_root_path() {
                if library.get_items(&path).is_some_and(|items| {
                    items
                        .iter()
                        .any(|item| matches!(item, ItemContainer::Union(..)))
                }) {
                    out.order.push(ItemContainer::Typedef(self.clone()));
                }
            }
        }
        self.aliased
            .add_dependencies_ignoring_generics(&self.generic_params, library, out);
    }''')],'','','',{}) if 0 else None
@bug
def b22():
    mk('b22','C03',[('src/bindgen/utilities.rs','''            if args.iter().any(|a| a.is_ident(name)) {
                return true;
            }
        }
        false
    }
''','''            return args.iter().any(|a| a.is_ident(name));
        }
        false
    }
''')],'an exported item with another unsafe(..) attribute before unsafe(no_mangle)','the exported symbol is missing from the header',
    'gen c.toml lib.rs\nhas "void f(void);"\n',{'c.toml':'language = "C"\n','lib.rs':'''
    #[unsafe(naked)] #[unsafe(no_mangle)] pub extern "C" fn f() {}
    '''})
@bug
def b23():
    mk('b23','C02',[('src/bindgen/ir/ty.rs','''            } => {
                ret.resolve_declaration_types(resolver);
                for (_, ref mut arg) in args {
                    arg.resolve_declaration_types(resolver);
                }
            }''','''            } => {
                for (_, ref mut arg) in args {
                    arg.resolve_declaration_types(resolver);
                }
                if let Type::Path(ref mut generic_path) = **ret {
                    generic_path.resolve_declaration_types(resolver);
                }
            }''')],'style = "tag" and a callback returning a pointer to a struct','the header does not compile: the struct is named without its tag keyword',
    'gen c.toml lib.rs\ngcc -fsyntax-only -x c "$tmp/out.h" || exit 1\n',{'c.toml':'language = "C"\nstyle = "tag"\n','lib.rs':'''
    #[repr(C)] pub struct S { a: u8 }
    #[no_mangle] pub extern "C" fn f(cb: extern "C" fn(u8) -> *const S) {}
    '''})
@bug
def b24():
    mk('b24','C08',[('src/bindgen/ir/cfg.rs','FOO','BAR')],'','','',{}) if 0 else None


@bug
def b25():
    mk('b25','C15',[('src/bindgen/language_backend/clike.rs',"""        if self.config.no_includes
            && self.config.sys_includes().is_empty()
            && self.config.includes().is_empty()
            && self.config.after_includes.is_none()
        {
            return;""","""        if self.config.no_includes
            && self.config.sys_includes().is_empty()
            && self.config.includes().is_empty()
        {
            return;""")],'no_includes with no other include and an after_includes text','the after_includes text is lost',
    'gen c.toml lib.rs\nhas "#define AFTER 1"\n',{'c.toml':'language = "C"\nno_includes = true\nafter_includes = "#define AFTER 1"\n','lib.rs':'#[no_mangle] pub extern "C" fn f(a: u32) {}\n'})
@bug
def b26():
    mk('b26','C17',[('src/bindgen/writer.rs',"""        let spaces = self.spaces() - (self.spaces() % self.bindings.config.tab_width)
            + self.bindings.config.tab_width;""","""        let spaces = if self.spaces.len() > 2 {
            // deeper levels follow the usual two columns
            self.spaces() + 2
        } else {
            self.spaces() - (self.spaces() % self.bindings.config.tab_width)
                + self.bindings.config.tab_width
        };""")],'a tab width other than two and a scope nested two deep (tagged enums in C++)','nested members are not indented by the configured width',
    """
    gen c.toml lib.rs
    grep -q '^            uint8_t _0;' "$tmp/out.h" || grep -q '^            ' "$tmp/out.h" || exit 1
    ! grep -q '^          [^ ]' "$tmp/out.h" || exit 1
    """,{'c.toml':'language = "C++"\ntab_width = 4\n[enum]\nderive_tagged_enum_destructor = true\n[export]\n','lib.rs':'#[repr(u8)] pub enum E { A(u8), B { x: u16 } }\n#[no_mangle] pub extern "C" fn f(a: E) {}\n'})
@bug
def b27():
    mk('b27','C21',[('src/bindgen/ir/ty.rs',"""            Type::Array(..) => false,
            Type::FuncPtr { .. } => false,""","""            Type::Array(..) => false,
            Type::FuncPtr { .. } => true,""")],'derive-lt on a struct whose single field is a function pointer','an ordering exists on a type that has none',
    'gen c.toml lib.rs\nhasnt "operator<"\n',{'c.toml':'language = "C++"\n','lib.rs':"""
    /// cbindgen:derive-lt
    #[repr(C)] pub struct S { pub f: extern "C" fn(u8) -> u8 }
    #[no_mangle] pub extern "C" fn f(a: S) {}
    """})
@bug
def b28():
    mk('b28','C01',[('src/bindgen/cargo/cargo.rs',"""        dependencies
            .unwrap()
            .iter()
            .map(|dep| {""","""        dependencies
            .unwrap()
            .iter()
            // a package is listed once per version
            .collect::<std::collections::HashSet<_>>()
            .into_iter()
            .map(|dep| {""")],'a crate with several parsed dependencies, over several processes','the order of the declarations changes from run to run',
    """
    mkdir -p "$tmp/w/src"
    printf '[package]\\nname = "w"\\nversion = "0.1.0"\\n[dependencies]\\n' > "$tmp/w/Cargo.toml"
    : > "$tmp/w/src/lib.rs"
    for i in a b c d e; do
      mkdir -p "$tmp/w/$i/src"
      printf '[package]\\nname = "d%s"\\nversion = "0.1.0"\\n' $i > "$tmp/w/$i/Cargo.toml"
      echo "#[no_mangle] pub extern \\"C\\" fn f_$i(x: u8) {}" > "$tmp/w/$i/src/lib.rs"
      echo "d$i = { path = \\"$i\\" }" >> "$tmp/w/Cargo.toml"
      echo "extern crate d$i;" >> "$tmp/w/src/lib.rs"
    done
    (cd "$tmp/w" && cargo generate-lockfile --offline) || exit 1
    for n in 1 2 3 4 5 6; do
      "$bin" -q --config "$here/c.toml" "$tmp/w" > "$tmp/$n.h" || exit 1
      grep -q f_e "$tmp/$n.h" || exit 1
      cmp "$tmp/1.h" "$tmp/$n.h" || exit 1
    done
    """,{'c.toml':'language = "C"\n[fn]\nsort_by = "None"\n[parse]\nparse_deps = true\nextra_bindings = ["da", "db", "dc", "dd", "de"]\n'})

for k in (sys.argv[1:] or list(B)):
    for n in B:
        if n.startswith(k): B[n]()
