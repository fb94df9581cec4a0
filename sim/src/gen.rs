//! Workload: WebIDL texts for every entry point, valid and damaged, from one generator seed.
use simrt::Rng;

pub struct G {
    pub r: Rng,
    out: String,
    off: u64, // swarm: disabled alternatives
    names: Vec<String>,
    style: u8,
    depth: u32,
    budget: i32,
    big: bool,
}

const KEYWORDS: &[&str] = &[
    "or", "optional", "async", "attribute", "callback", "const", "deleter", "dictionary", "enum", "getter", "includes",
    "inherit", "interface", "iterable", "maplike", "namespace", "partial", "required", "setlike", "setter", "static",
    "stringifier", "typedef", "unrestricted", "symbol", "ByteString", "DOMString", "FrozenArray", "Infinity", "NaN",
    "USVString", "any", "boolean", "byte", "double", "false", "float", "long", "null", "object", "octet", "sequence",
    "short", "true", "unsigned", "undefined", "record", "ArrayBuffer", "DataView", "Int8Array", "Int16Array",
    "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array",
    "ArrayBufferView", "BufferSource", "Promise", "Error", "readonly", "mixin", "implements", "legacycaller",
    "constructor",
];
const PUNCT: &[&str] = &["(", ")", "[", "]", "{", "}", ",", "-", ".", "...", ":", ";", "<", "=", ">", "?", "*"];

fn idc(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '-'
}

impl G {
    pub fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let off = r.next() & r.next(); // a quarter of the alternatives off
        let style = r.below(5) as u8;
        let n = 2 + r.below(5);
        let mut g = G { r, out: String::new(), off, names: vec![], style, depth: 0, budget: 60, big: false };
        for _ in 0..n {
            let s = g.fresh_name();
            g.names.push(s);
        }
        g
    }
    fn p(&mut self, num: u64, den: u64) -> bool {
        self.r.below(den) < num
    }
    fn fresh_name(&mut self) -> String {
        let forms = self.r.below(12);
        let base: String = {
            let n = match self.r.below(10) {
                0 => 1,
                1 => 20 + self.r.below(60),
                _ => 2 + self.r.below(8),
            };
            (0..n).map(|i| {
                let k = self.r.below(if i == 0 { 52 } else { 64 });
                match k {
                    0..=25 => (b'a' + k as u8) as char,
                    26..=51 => (b'A' + (k - 26) as u8) as char,
                    52..=61 => (b'0' + (k - 52) as u8) as char,
                    62 => '_',
                    _ => '-',
                }
            }).collect()
        };
        match forms {
            0 => format!("_{base}"),
            1 => format!("{}{}", KEYWORDS[self.r.below(KEYWORDS.len() as u64) as usize], base),
            2 => format!("_{}", KEYWORDS[self.r.below(KEYWORDS.len() as u64) as usize]),
            3 => format!("{base}_"),
            4..=6 => format!("{base}zz0000"),
            _ => base,
        }
    }
    fn name(&mut self) -> String {
        if self.p(3, 4) {
            let i = self.r.below(self.names.len() as u64) as usize;
            self.names[i].clone()
        } else {
            self.fresh_name()
        }
    }
    /// one of n alternatives, honouring the swarm mask (salt tells choices apart)
    fn alt(&mut self, salt: u32, n: u64) -> u64 {
        for _ in 0..3 {
            let k = self.r.below(n);
            if self.off >> ((salt as u64 * 7 + k) % 64) & 1 == 0 {
                return k;
            }
        }
        self.r.below(n)
    }
    fn ws(&mut self, needed: bool) {
        match self.style {
            0 => self.out.push(' '),
            1 => {
                if needed {
                    self.out.push(' ')
                }
            }
            _ => {
                let n = self.r.below(3) + needed as u64;
                if needed {
                    self.out.push([' ', '\n', '\t', '\r'][self.r.below(4) as usize]);
                }
                for _ in 0..n {
                    match self.r.below(if self.style == 4 { 8 } else { 4 }) {
                        0 => self.out.push(' '),
                        1 => self.out.push('\n'),
                        2 => self.out.push('\t'),
                        3 => self.out.push_str("\r\n"),
                        4 if self.p(1, 2) => {
                            let c = self.prose();
                            self.out.push_str("//");
                            self.out.push_str(&c);
                            self.out.push('\n');
                        }
                        5 if self.p(2, 3) => {
                            let c = self.prose();
                            self.out.push_str("/*");
                            self.out.push_str(&c);
                            self.out.push_str("*/");
                        }
                        4 => self.out.push_str("// line comment /* \" é \n"),
                        5 => self.out.push_str("/* block ** // \n ; */"),
                        6 => self.out.push_str("/**/"),
                        _ => self.out.push_str("//\n"),
                    }
                }
            }
        }
    }
    /// What may stand in a comment.
    fn prose(&mut self) -> String {
        const W: [&str; 16] = [" ", " ", "a", "of", "the", "Window", "\"", "x;", "é", "*", "see", "interface", "{", "}", "attribute", "0"];
        let n = [0, 1, 3, 6, 14][self.r.below(5) as usize] + self.r.below(3);
        (0..n).map(|_| W[self.r.below(16) as usize]).collect()
    }
    fn t(&mut self, s: &str) {
        let needed = match (self.out.chars().last(), s.chars().next()) {
            (Some(a), Some(b)) => (idc(a) || a == '.') && (idc(b) || b == '.') || a == '/' && b == '/',
            _ => false,
        };
        self.ws(needed);
        self.out.push_str(s);
        self.budget -= 1;
    }
    fn id(&mut self) {
        let n = self.name();
        self.t(&n)
    }
    fn small(&mut self, salt: u32) -> u64 {
        let _ = salt;
        if self.big && self.p(1, 12) {
            return self.r.below(30);
        }
        match self.r.below(10) {
            0..=2 => 0,
            3..=6 => 1,
            7..=8 => 2,
            _ => 3 + self.r.below(3),
        }
    }
    fn attrs(&mut self) {
        if self.p(1, 4) && self.depth < 3 && self.budget > 0 {
            self.attr_list();
        }
    }
    fn attr_list(&mut self) {
        self.depth += 1;
        self.t("[");
        let n = self.small(1).max(1).min(6);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            let k = self.alt(1, 6);
            self.attr(k);
        }
        self.t("]");
        self.depth -= 1;
    }
    fn attr(&mut self, k: u64) {
        self.id();
        match k {
            0 => self.paren_args(),
            1 => {
                self.t("=");
                self.id();
                self.paren_args()
            }
            2 => {
                self.t("=");
                self.t("(");
                self.id_list();
                self.t(")")
            }
            3 => {
                self.t("=");
                if self.p(1, 2) {
                    self.id()
                } else {
                    self.string()
                }
            }
            4 => {
                self.t("=");
                self.t("*")
            }
            _ => {}
        }
    }
    fn id_list(&mut self) {
        let n = self.small(2);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.id();
        }
    }
    fn paren_args(&mut self) {
        self.t("(");
        self.args();
        self.t(")");
    }
    fn args(&mut self) {
        let n = if self.budget <= 0 { 0 } else { self.small(3) };
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            let k = self.alt(3, 4);
            self.arg(k);
        }
    }
    fn arg(&mut self, k: u64) {
        self.attrs();
        match k {
            0 => {
                self.ty();
                self.t("...");
                self.id()
            }
            1 => {
                self.t("optional");
                self.attr_ty();
                self.id();
                self.t("=");
                self.default_value()
            }
            2 => {
                self.t("optional");
                self.attr_ty();
                self.id()
            }
            _ => {
                self.attr_ty();
                self.id()
            }
        }
    }
    fn attr_ty(&mut self) {
        if self.p(1, 8) {
            self.attrs();
        }
        self.ty()
    }
    fn ty(&mut self) {
        self.depth += 1;
        match self.alt(4, 6) {
            0 => self.t("any"),
            1 if self.depth < 7 && self.budget > 0 => {
                self.union();
                self.q()
            }
            _ => self.nonany(),
        }
        self.depth -= 1;
    }
    fn union(&mut self) {
        self.t("(");
        let n = 1 + self.small(5).min(4);
        for i in 0..n {
            if i > 0 {
                self.t("or");
            }
            self.depth += 1;
            if self.depth < 6 && self.p(1, 6) {
                self.union();
                self.q();
            } else {
                if self.p(1, 5) {
                    self.attrs();
                }
                self.nonany();
            }
            self.depth -= 1;
        }
        self.t(")");
    }
    fn q(&mut self) {
        if self.p(1, 4) {
            self.t("?");
        }
    }
    fn int_ty(&mut self) {
        if self.p(1, 3) {
            self.t("unsigned");
        }
        match self.r.below(3) {
            0 => self.t("short"),
            1 => self.t("long"),
            _ => {
                self.t("long");
                self.t("long")
            }
        }
    }
    fn float_ty(&mut self) {
        if self.p(1, 3) {
            self.t("unrestricted");
        }
        let k = self.r.below(2) as usize;
        self.t(["float", "double"][k]);
    }
    fn generic1(&mut self, kw: &str) {
        self.t(kw);
        self.t("<");
        self.ty();
        self.t(">");
    }
    fn nonany(&mut self) {
        self.depth += 1;
        let deep = self.depth >= 9 || self.budget <= 0;
        match self.alt(6, 12) {
            0 if !deep => {
                self.t("Promise");
                self.t("<");
                self.ret();
                self.t(">");
            }
            1 if !deep => {
                self.generic1("sequence");
                self.q()
            }
            2 if !deep => {
                self.generic1("FrozenArray");
                self.q()
            }
            3 if !deep => {
                self.record();
                self.q()
            }
            4 | 5 => {
                self.int_ty();
                self.q()
            }
            6 => {
                self.float_ty();
                self.q()
            }
            7 | 8 => {
                let names = [
                    "boolean", "byte", "octet", "ByteString", "DOMString", "USVString", "object", "symbol", "Error",
                    "ArrayBuffer", "DataView", "Int8Array", "Int16Array", "Int32Array", "Uint8Array", "Uint16Array",
                    "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource",
                ];
                let k = self.alt(7, names.len() as u64) as usize;
                self.t(names[k]);
                self.q()
            }
            _ => {
                self.id();
                self.q()
            }
        }
        self.depth -= 1;
    }
    fn record(&mut self) {
        self.t("record");
        self.t("<");
        self.record_key();
        self.t(",");
        self.ty();
        self.t(">");
    }
    fn record_key(&mut self) {
        match self.r.below(5) {
            0 => self.t("ByteString"),
            1 | 2 => self.t("DOMString"),
            3 => self.t("USVString"),
            _ => self.nonany(),
        }
    }
    fn ret(&mut self) {
        if self.p(1, 3) {
            self.t("undefined")
        } else {
            self.ty()
        }
    }
    fn const_ty(&mut self) {
        match self.r.below(6) {
            0 | 1 => self.int_ty(),
            2 => self.float_ty(),
            3 => {
                let k = self.r.below(3) as usize;
                self.t(["boolean", "byte", "octet"][k])
            }
            _ => self.id(),
        }
        self.q()
    }
    fn digits(&mut self, min: u64) -> String {
        let m = if self.p(1, 10) { 30 } else { 4 };
        let n = min + self.r.below(m);
        (0..n).map(|_| (b'0' + self.r.below(10) as u8) as char).collect()
    }
    fn int_lit(&mut self, k: u64) {
        let neg = if self.p(1, 4) { "-" } else { "" };
        let s = match k {
            0 => format!("{neg}{}{}", 1 + self.r.below(9), self.digits(0)),
            1 => {
                let x = if self.p(1, 2) { "x" } else { "X" };
                let n = self.r.below(9);
                let h: String = (0..n).map(|_| b"0123456789abcdefABCDEF"[self.r.below(22) as usize] as char).collect();
                format!("{neg}0{x}{h}")
            }
            2 => {
                let n = self.r.below(5);
                let o: String = (0..n).map(|_| (b'0' + self.r.below(8) as u8) as char).collect();
                format!("{neg}0{o}")
            }
            _ => "0".into(),
        };
        self.t(&s)
    }
    fn float_lit(&mut self, k: u64) {
        let neg = if self.p(1, 4) { "-" } else { "" };
        let mut exp = String::new();
        if self.p(1, 3) {
            let e = ["e", "E", "e+", "E-"][self.r.below(4) as usize];
            exp = format!("{e}{}", self.digits(1));
        }
        let s = match k {
            0 => format!("{neg}{}.{}{exp}", self.digits(1), self.digits(0)),
            1 => format!("{neg}.{}{exp}", self.digits(1)),
            2 => {
                let e = ["e", "E", "e+", "E-"][self.r.below(4) as usize];
                format!("{neg}{}{e}{}", self.digits(1), self.digits(1))
            }
            3 => "-Infinity".into(),
            4 => "Infinity".into(),
            _ => "NaN".into(),
        };
        self.t(&s)
    }
    fn string(&mut self) {
        let s = match self.r.below(8) {
            0 => "\"\"".to_string(),
            1 => "\"// not a comment\"".into(),
            2 => "\"/* nor this */ é ✓ 𝒳\"".into(),
            3 => format!("\"{}\"", self.name()),
            4 => "\"  spaces \\ and \n newline \"".into(),
            5 => format!("\"{}zz0000\"", self.digits(1)),
            _ => format!("\"{}\"", self.digits(2)),
        };
        self.t(&s)
    }
    fn const_value(&mut self) {
        match self.alt(8, 5) {
            0 => {
                let k = self.r.below(2) as usize;
                self.t(["true", "false"][k])
            }
            1 => {
                let k = self.r.below(6);
                self.float_lit(k)
            }
            2 | 3 => {
                let k = self.r.below(4);
                self.int_lit(k)
            }
            _ => self.t("null"),
        }
    }
    fn default_value(&mut self) {
        match self.alt(9, 6) {
            0 => {
                self.t("[");
                self.t("]")
            }
            1 => {
                self.t("{");
                self.t("}")
            }
            2 => self.string(),
            _ => self.const_value(),
        }
    }
    fn two_or_one(&mut self, two: bool) {
        self.t("<");
        self.attr_ty();
        if two {
            self.t(",");
            self.attr_ty();
        }
        self.t(">");
    }
    fn member(&mut self, k: u64) {
        self.attrs();
        match k {
            0 => {
                self.t("const");
                self.const_ty();
                self.id();
                self.t("=");
                self.const_value()
            }
            1 => {
                if self.p(1, 2) {
                    let k = self.r.below(3) as usize;
                    self.t(["stringifier", "inherit", "static"][k]);
                }
                if self.p(1, 2) {
                    self.t("readonly");
                }
                self.t("attribute");
                self.attr_ty();
                self.id()
            }
            2 => {
                self.t("constructor");
                self.paren_args()
            }
            3 | 4 => {
                if self.p(1, 4) {
                    let k = self.r.below(2) as usize;
                    self.t(["stringifier", "static"][k]);
                }
                if self.p(1, 4) {
                    let k = self.r.below(4) as usize;
                    self.t(["getter", "setter", "deleter", "legacycaller"][k]);
                }
                self.ret();
                if self.p(5, 6) {
                    self.id();
                }
                self.paren_args()
            }
            5 => {
                self.t("iterable");
                self.two_or_one(false)
            }
            6 => {
                self.t("iterable");
                self.two_or_one(true)
            }
            7 | 8 => {
                self.t("async");
                self.t("iterable");
                self.two_or_one(k == 8);
                if self.p(1, 2) {
                    self.paren_args()
                }
            }
            9 => {
                if self.p(1, 2) {
                    self.t("readonly");
                }
                self.t("maplike");
                self.two_or_one(true)
            }
            10 => {
                if self.p(1, 2) {
                    self.t("readonly");
                }
                self.t("setlike");
                self.two_or_one(false)
            }
            _ => self.t("stringifier"),
        }
        self.t(";");
    }
    fn members(&mut self, f: fn(&mut G)) {
        let n = if self.budget <= 0 { 0 } else { self.small(10) };
        for _ in 0..n {
            f(self)
        }
    }
    fn imember(&mut self) {
        let k = self.alt(11, 12);
        self.member(k)
    }
    fn mmember(&mut self) {
        let k = self.alt(12, 4);
        self.mixin_member(k)
    }
    fn mixin_member(&mut self, k: u64) {
        self.attrs();
        match k {
            0 => return self.member(0),
            1 => {
                if self.p(1, 4) {
                    self.t("stringifier");
                }
                self.ret();
                if self.p(5, 6) {
                    self.id();
                }
                self.paren_args()
            }
            2 => {
                if self.p(1, 4) {
                    self.t("stringifier");
                }
                if self.p(1, 2) {
                    self.t("readonly");
                }
                self.t("attribute");
                self.attr_ty();
                self.id()
            }
            _ => self.t("stringifier"),
        }
        self.t(";");
    }
    fn nmember(&mut self) {
        let k = self.alt(13, 3);
        self.ns_member(k)
    }
    fn ns_member(&mut self, k: u64) {
        self.attrs();
        match k {
            0 => {
                self.t("const");
                self.const_ty();
                self.id();
                self.t("=");
                self.const_value()
            }
            1 => {
                self.ret();
                if self.p(5, 6) {
                    self.id();
                }
                self.paren_args()
            }
            _ => {
                self.t("readonly");
                self.t("attribute");
                self.attr_ty();
                self.id()
            }
        }
        self.t(";");
    }
    fn dmember(&mut self) {
        self.attrs();
        if self.p(1, 3) {
            self.t("required");
        }
        self.ty();
        self.id();
        if self.p(1, 2) {
            self.t("=");
            self.default_value();
        }
        self.t(";");
    }
    fn inherit(&mut self) {
        if self.p(1, 2) {
            self.t(":");
            self.id();
        }
    }
    fn braced(&mut self, f: fn(&mut G)) {
        self.t("{");
        self.members(f);
        self.t("}");
    }
    fn def(&mut self, k: u64) {
        self.attrs();
        match k {
            0 => {
                self.t("callback");
                self.id();
                self.t("=");
                self.ret();
                self.paren_args()
            }
            1 => {
                self.t("callback");
                self.t("interface");
                self.id();
                self.inherit();
                self.braced(G::imember)
            }
            2 => {
                self.t("interface");
                self.id();
                self.inherit();
                self.braced(G::imember)
            }
            3 => {
                self.t("interface");
                self.t("mixin");
                self.id();
                self.braced(G::mmember)
            }
            4 => {
                self.t("namespace");
                self.id();
                self.braced(G::nmember)
            }
            5 => {
                self.t("dictionary");
                self.id();
                self.inherit();
                self.braced(G::dmember)
            }
            6 => {
                self.t("partial");
                self.t("interface");
                self.id();
                self.braced(G::imember)
            }
            7 => {
                self.t("partial");
                self.t("interface");
                self.t("mixin");
                self.id();
                self.braced(G::mmember)
            }
            8 => {
                self.t("partial");
                self.t("dictionary");
                self.id();
                self.braced(G::dmember)
            }
            9 => {
                self.t("partial");
                self.t("namespace");
                self.id();
                self.braced(G::nmember)
            }
            10 => {
                self.t("enum");
                self.id();
                self.t("{");
                self.enum_values();
                self.t("}")
            }
            11 => {
                self.t("typedef");
                self.attr_ty();
                self.id()
            }
            12 => {
                self.id();
                self.t("includes");
                self.id()
            }
            _ => {
                self.id();
                self.t("implements");
                self.id()
            }
        }
        self.t(";");
    }
    fn enum_values(&mut self) {
        let n = self.small(14).max(1);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.string();
        }
        if self.p(1, 3) {
            self.t(",");
        }
    }
    fn finish(&mut self) -> String {
        if self.p(1, 2) {
            self.ws(false);
        }
        std::mem::take(&mut self.out)
    }

    /// A text for the named entry point.
    pub fn text_for(&mut self, entry: &str) -> String {
        self.out.clear();
        self.depth = 0;
        self.budget = 40;
        self.big = self.p(1, 8);
        if self.p(1, 16) {
            self.ws(false);
        }
        let defs = [
            "CallbackDefinition", "CallbackInterfaceDefinition", "InterfaceDefinition", "InterfaceMixinDefinition",
            "NamespaceDefinition", "DictionaryDefinition", "PartialInterfaceDefinition",
            "PartialInterfaceMixinDefinition", "PartialDictionaryDefinition", "PartialNamespaceDefinition",
            "EnumDefinition", "TypedefDefinition", "IncludesStatementDefinition", "ImplementsDefinition",
        ];
        if let Some(k) = defs.iter().position(|d| *d == entry) {
            self.def(k as u64);
            return self.finish();
        }
        match entry {
            "parse" | "Definitions" | "BoxDefinitions" | "VecDefinitionPair" => {
                let n = match self.r.below(8) {
                    0 => 0,
                    1..=4 => 1,
                    5..=6 => 2 + self.r.below(3),
                    _ => 4 + self.r.below(8),
                };
                self.budget = 80;
                for _ in 0..n {
                    let k = self.alt(15, 14);
                    self.def(k);
                }
            }
            "Definition" | "OptionDefinition" => {
                let k = self.alt(15, 14);
                self.def(k)
            }
            "EnumValueList" => self.enum_values(),
            "ArgumentList" => self.args(),
            "Argument" => {
                let k = self.alt(3, 4);
                self.arg(k)
            }
            "SingleArgument" => {
                let k = 1 + self.r.below(3);
                self.arg(k)
            }
            "VariadicArgument" => self.arg(0),
            "ExtendedAttributeList" => self.attr_list(),
            "IdentifierList" | "PunctIdentifier" | "PunctNonEmptyIdentifier" => self.id_list(),
            "ExtendedAttribute" => {
                let k = self.alt(1, 6);
                self.attr(k)
            }
            "ExtendedAttributeArgList" => self.attr(0),
            "ExtendedAttributeNamedArgList" => self.attr(1),
            "ExtendedAttributeIdentList" => self.attr(2),
            "ExtendedAttributeIdent" => self.attr(3),
            "ExtendedAttributeWildCard" => self.attr(4),
            "ExtendedAttributeNoArgs" => self.attr(5),
            "IdentifierOrString" => {
                if self.p(1, 2) {
                    self.id()
                } else {
                    self.string()
                }
            }
            "Identifier" | "OptionIdentifier" | "BoxIdentifier" => self.id(),
            "VecIdentifier" | "PairIdentifier" => {
                self.id();
                self.id()
            }
            "TripleIdentifier" => {
                self.id();
                self.t(",");
                self.id()
            }
            "ParenIdentifier" => self.wrap("(", ")"),
            "BracketIdentifier" => self.wrap("[", "]"),
            "BraceIdentifier" => self.wrap("{", "}"),
            "GenericIdentifier" => self.wrap("<", ">"),
            "NullableIdentifier" => {
                self.id();
                self.q()
            }
            "Default" => {
                self.t("=");
                self.default_value()
            }
            "DictionaryMembers" => self.members(G::dmember),
            "DictionaryMember" => self.dmember(),
            "Inheritance" => {
                self.t(":");
                self.id()
            }
            "InterfaceMembers" => self.members(G::imember),
            "InterfaceMember" => self.imember(),
            "ConstMember" => self.member(0),
            "AttributeInterfaceMember" => self.member(1),
            "ConstructorInterfaceMember" => self.member(2),
            "OperationInterfaceMember" => self.member(3),
            "IterableInterfaceMember" => {
                let k = 5 + self.r.below(2);
                self.member(k)
            }
            "SingleTypedIterable" => self.member(5),
            "DoubleTypedIterable" => self.member(6),
            "AsyncIterableInterfaceMember" => {
                let k = 7 + self.r.below(2);
                self.member(k)
            }
            "SingleTypedAsyncIterable" => self.member(7),
            "DoubleTypedAsyncIterable" => self.member(8),
            "MaplikeInterfaceMember" => self.member(9),
            "SetlikeInterfaceMember" => self.member(10),
            "StringifierMember" => self.member(11),
            "Special" => {
                let k = self.r.below(4) as usize;
                self.t(["getter", "setter", "deleter", "legacycaller"][k])
            }
            "StringifierOrInheritOrStatic" | "StringifierOrStatic" => {
                let k = self.r.below(3) as usize;
                self.t(["stringifier", "static", "inherit"][k])
            }
            "IntegerLit" => {
                let k = self.r.below(4);
                self.int_lit(k)
            }
            "DecLit" => self.int_lit(0),
            "HexLit" => self.int_lit(1),
            "OctLit" => self.int_lit(2),
            "StringLit" => self.string(),
            "DefaultValue" => self.default_value(),
            "EmptyArrayLit" => {
                self.t("[");
                self.t("]")
            }
            "EmptyDictionaryLit" => {
                self.t("{");
                self.t("}")
            }
            "ConstValue" => self.const_value(),
            "BooleanLit" => {
                let k = self.r.below(2) as usize;
                self.t(["true", "false"][k])
            }
            "FloatLit" => {
                let k = self.r.below(6);
                self.float_lit(k)
            }
            "FloatValueLit" => {
                let k = self.r.below(3);
                self.float_lit(k)
            }
            "MixinMembers" => self.members(G::mmember),
            "MixinMember" => self.mmember(),
            "OperationMixinMember" => self.mixin_member(1),
            "AttributeMixinMember" => self.mixin_member(2),
            "NamespaceMembers" => self.members(G::nmember),
            "NamespaceMember" => self.nmember(),
            "ConstNamespaceMember" => self.ns_member(0),
            "OperationNamespaceMember" => self.ns_member(1),
            "AttributeNamespaceMember" => self.ns_member(2),
            "UnionType" => self.union(),
            "Type" | "AttributedType" => self.attr_ty(),
            "SingleType" | "NonAnyType" | "UnionMemberType" | "AttributedNonAnyType" => self.nonany(),
            "SequenceType" => self.generic1("sequence"),
            "FrozenArrayType" => self.generic1("FrozenArray"),
            "NullableInteger" | "IntegerType" | "LongLongType" | "LongType" | "ShortType" => {
                self.int_ty();
                self.q()
            }
            "PromiseType" => {
                self.t("Promise");
                self.t("<");
                self.ret();
                self.t(">")
            }
            "FloatingPointType" | "FloatType" | "DoubleType" => self.float_ty(),
            "RecordType" => self.record(),
            "RecordKeyType" => self.record_key(),
            "ConstType" => self.const_ty(),
            "ReturnType" => self.ret(),
            tok => {
                let s = tok.to_string();
                self.t(&s);
                if self.p(1, 3) {
                    self.id()
                }
            }
        }
        self.finish()
    }
    fn wrap(&mut self, a: &str, b: &str) {
        self.t(a);
        self.id();
        self.t(b);
    }

    /// A text that is large in one dimension: deep, long, wide, or with one very long token.
    pub fn extreme(&mut self) -> (&'static str, String) {
        const SIZES: [u64; 14] = [9, 15, 17, 31, 33, 48, 63, 65, 90, 100, 127, 129, 180, 255];
        let mut n = SIZES[self.r.below(14) as usize] + self.r.below(3);
        let ints = &crate::seeds::pool().ints;
        if !ints.is_empty() && self.p(1, 2) {
            let k = ints[self.r.below(ints.len() as u64) as usize];
            if k <= 300 {
                n = (k + self.r.below(4)).saturating_sub(1).max(1);
            }
        }
        self.out.clear();
        let id = self.name();
        let mut s = String::new();
        match self.r.below(14) {
            k @ 0..=3 => {
                n = n.min(130);
                let mut close: Vec<String> = vec![];
                for _ in 0..n {
                    let j = if k == 3 { self.r.below(5) } else { k };
                    match j {
                        0 => { s.push_str("sequence<"); close.push(">".into()) }
                        1 => { s.push('('); close.push(format!(" or {})", self.names[0])) }
                        2 => { s.push_str("record<DOMString,"); close.push(">".into()) }
                        3 => { s.push_str("Promise<"); close.push(">".into()) }
                        _ => { s.push_str("FrozenArray<"); close.push(">?".into()) }
                    }
                }
                s.push_str("long");
                let cut = if self.p(1, 6) { self.r.below(n) as usize } else { 0 };
                for c in close.iter().rev().skip(cut) {
                    s.push_str(c);
                }
                match self.r.below(4) {
                    0 => return ("Type", s),
                    1 => s = format!("typedef {s} {id};"),
                    2 => s = format!("interface {id} {{ undefined f({s} x); }};"),
                    _ => s = format!("dictionary {id} {{ {s} a; }};"),
                }
            }
            4 => {
                s = format!("enum {id} {{");
                for i in 0..n {
                    s.push_str(&format!("{}\"v{i}\"", if i > 0 { "," } else { "" }));
                }
                s.push_str(if self.p(1, 2) { ",};" } else { "};" });
            }
            5 => {
                let a: Vec<String> = (0..n).map(|i| format!("long a{i}")).collect();
                if self.p(1, 2) {
                    return ("ArgumentList", a.join(","));
                }
                s = format!("callback {id} = undefined ({});", a.join(", "));
            }
            6 => {
                let a: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
                match self.r.below(4) {
                    0 => return ("IdentifierList", a.join(",")),
                    1 => return ("VecIdentifier", a.join(" ")),
                    2 => s = format!("[{}] enum {id} {{\"a\"}};", a.join(",")),
                    _ => s = format!("[E=({})] typedef long {id};", a.join(", ")),
                }
            }
            7 => {
                for i in 0..n.min(140) {
                    s.push_str(&match (i + n) % 3 {
                        0 => format!("typedef long T{i};\n"),
                        1 => format!("A{i} includes B;"),
                        _ => format!("enum E{i}{{\"a\"}};"),
                    });
                }
            }
            8 => {
                s = format!("interface {id} {{\n");
                for i in 0..n.min(100) {
                    s.push_str(&if i % 2 == n % 2 { format!("attribute long m{i};\n") } else { format!("const octet C{i}={i};") });
                }
                s.push_str("};");
            }
            9 => {
                s = format!("dictionary {id} {{");
                for i in 0..n.min(140) {
                    s.push_str(&format!("long m{i};"));
                }
                s.push_str("};");
            }
            10 => {
                let a: Vec<String> = (0..n).map(|i| format!("U{i}")).collect();
                s = format!("typedef ({}) {id};", a.join(" or "));
            }
            k => {
                let mut len = (n * [1, 4, 16, 18][self.r.below(4) as usize]) as usize;
                if !ints.is_empty() && self.p(1, 2) {
                    let k = ints[self.r.below(ints.len() as u64) as usize];
                    if k <= 6000 {
                        len = (k + self.r.below(4)) as usize;
                    }
                }
                let long: String = (0..len).map(|i| (b'a' + (i % 24) as u8) as char).collect();
                s = match self.r.below(if k == 11 { 2 } else { 6 }) {
                    0 => format!("typedef long {long};"),
                    1 => return ("Identifier", long),
                    2 => format!("enum {id} {{ \"{long}\" }};"),
                    3 => format!("/* {long} */ enum {id} {{ \"a\" }}; // {long}\n"),
                    4 => format!("typedef {} long {id};", " ".repeat(len)),
                    _ => format!("interface {id} {{ const long long c = {}; }};", "7".repeat(len)),
                };
            }
        }
        ("parse", s)
    }

    /// A large text, perhaps with something behind it.
    pub fn large(&mut self) -> (&'static str, String) {
        let (e, mut s) = self.extreme();
        if self.p(1, 4) {
            let o = &crate::seeds::pool().odd;
            if !o.is_empty() && self.p(1, 2) {
                s.push_str(&o[self.r.below(o.len() as u64) as usize]);
            } else {
                s.push_str(PUNCT[self.r.below(PUNCT.len() as u64) as usize]);
            }
        }
        (e, s)
    }

    /// A small piece of a real specification.
    pub fn corpus(&mut self) -> String {
        const DEFS: [&str; 5] = [
            include_str!("../corpus/dom.webidl"), include_str!("../corpus/html.webidl"),
            include_str!("../corpus/mediacapture-streams.webidl"), include_str!("../corpus/streams.webidl"),
            include_str!("../corpus/webgpu.webidl"),
        ];
        let d = DEFS[self.r.below(5) as usize];
        let starts: Vec<usize> = d.match_indices("\n};").map(|(i, s)| i + s.len()).collect();
        if starts.len() < 3 {
            return d.to_string();
        }
        let i = self.r.below(starts.len() as u64 - 2) as usize;
        let n = 1 + self.r.below(2) as usize;
        let j = (i + n).min(starts.len() - 1);
        let s = &d[starts[i]..starts[j]];
        if s.len() > 2500 {
            return self.text_for("parse");
        }
        s.to_string()
    }

    /// The beginning of one text and the end of another.
    pub fn splice(r: &mut Rng, a: &str, b: &str) -> String {
        let (a, b) = (split_tokens(a), split_tokens(b));
        let i = r.below(a.len() as u64 + 1) as usize;
        let j = r.below(b.len() as u64 + 1) as usize;
        a[..i].concat() + &b[j..].concat()
    }

    /// Damages a text.
    /// A long stretch of like characters around a token, often with an unusual one among them.
    fn run(&mut self, tok: &str) -> String {
        const ODD: [char; 24] = [
            '\u{b}', '\u{c}', '\u{b}', '\u{c}', '\u{0}', '\u{1f}', '\u{1c}', '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{feff}', '@', '[', '`',
            '{', ':', '/', 'é', '\u{7f}', '_', '-', '*', '"',
        ];
        let n = [8, 9, 15, 16, 17, 24, 31, 33, 64, 70, 130][self.r.below(11) as usize] + self.r.below(8);
        let blank = !tok.starts_with(|c: char| c.is_ascii_alphanumeric()) || self.p(1, 3);
        let alike: &[char] = if blank { &[' ', '\n', '\t', '\r'] } else if tok.starts_with(|c: char| c.is_ascii_digit()) { &['0', '7', '9', 'a'] } else { &['a', 'Z', '9', '_', '-'] };
        let one = alike[self.r.below(alike.len() as u64) as usize];
        let mixed = self.p(1, 3);
        let odd = if self.p(2, 3) { self.r.below(n) } else { n };
        let mut s = String::new();
        for i in 0..n {
            s.push(if i == odd { ODD[self.r.below(24) as usize] } else if mixed { alike[self.r.below(alike.len() as u64) as usize] } else { one });
        }
        if !blank || self.p(1, 2) {
            format!("{tok}{s}")
        } else {
            format!("{s}{tok}")
        }
    }
    pub fn mutate(&mut self, s: &str) -> String {
        let mut toks = split_tokens(s);
        for _ in 0..1 + self.r.below(2) {
            if toks.is_empty() {
                toks.push(";".into());
            }
            let i = self.r.below(toks.len() as u64) as usize;
            match self.r.below(17) {
                15 => {
                    // a delimiter: gone, doubled or another
                    let d: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i].as_str(), "\"" | "*" | "/" | ";" | "(" | ")" | "[" | "]" | "{" | "}" | "<" | ">" | "," | "=" | "\n")).collect();
                    if !d.is_empty() {
                        let i = d[self.r.below(d.len() as u64) as usize];
                        match self.r.below(4) {
                            0 | 1 => { toks.remove(i); }
                            2 => { let t = toks[i].clone(); toks.insert(i, t) }
                            _ => { let j = d[self.r.below(d.len() as u64) as usize]; toks[i] = toks[j].clone() }
                        }
                    }
                }
                16 => {
                    // something unusual, mostly at one of the ends
                    let (w, o) = (&crate::seeds::pool().words, &crate::seeds::pool().odd);
                    let t = if !o.is_empty() && self.p(1, 2) {
                        o[self.r.below(o.len() as u64) as usize].clone()
                    } else if w.is_empty() || self.p(1, 3) {
                        ["\u{1a}", "\u{0}", "\u{feff}", "\u{c}", "\u{b}", "\r", "\u{2028}", "\u{85}", "\u{a0}", "\u{4}", "\u{fffd}", "\u{10ffff}"][self.r.below(12) as usize].to_string()
                    } else {
                        w[self.r.below(w.len() as u64) as usize].clone()
                    };
                    match self.r.below(5) {
                        0 => toks.insert(0, t),
                        1 => toks.insert(i, t),
                        _ => toks.push(t),
                    }
                }
                13 | 14 => toks[i] = self.run(&toks[i].clone()),
                10 => {
                    let w = &crate::seeds::pool().words;
                    if !w.is_empty() {
                        let w = w[self.r.below(w.len() as u64) as usize].clone();
                        if self.p(1, 2) {
                            toks[i] = w;
                        } else {
                            toks.insert(i, w);
                        }
                    }
                }
                11 => {
                    // a stretch, several times over
                    let j = (i + 1 + self.r.below(6) as usize).min(toks.len());
                    let part: Vec<String> = toks[i..j].to_vec();
                    let n = [1, 2, 3, 7, 16, 40][self.r.below(6) as usize];
                    for _ in 0..n {
                        if toks.len() < 1500 {
                            toks.splice(i..i, part.iter().cloned());
                        }
                    }
                }
                12 => {
                    // something behind it
                    if self.p(1, 2) {
                        toks.push(" ".into());
                    }
                    let t = if self.p(2, 3) { PUNCT[self.r.below(PUNCT.len() as u64) as usize] } else { KEYWORDS[self.r.below(KEYWORDS.len() as u64) as usize] };
                    toks.push(t.into());
                }
                0 => {
                    toks.remove(i);
                }
                1 => {
                    let t = toks[i].clone();
                    toks.insert(i, t)
                }
                2 => {
                    let j = self.r.below(toks.len() as u64) as usize;
                    toks.swap(i, j)
                }
                3 => toks[i] = KEYWORDS[self.r.below(KEYWORDS.len() as u64) as usize].into(),
                4 => toks.insert(i, PUNCT[self.r.below(PUNCT.len() as u64) as usize].into()),
                5 => toks.truncate(i),
                6 => toks[i].push(['é', '\u{0}', '"', '/', '*', '_', '-', '0', 'x', '✓'][self.r.below(10) as usize]),
                7 => {
                    // cut a token short, at a character boundary
                    let n = toks[i].chars().count() as u64;
                    if n > 0 {
                        let k = self.r.below(n) as usize;
                        toks[i] = toks[i].chars().take(k).collect();
                    }
                }
                8 => toks.push(["//", "/*", "\"", "x", "}", ";;", "/* open", "// open"][self.r.below(8) as usize].into()),
                _ => {
                    let j = (i + 1 + self.r.below(4) as usize).min(toks.len());
                    toks.drain(i..j);
                }
            }
        }
        toks.concat()
    }
}

/// The text, made longer `by` times: 1 said again and again, 2 its names, 3 its blanks, 4 its numbers and strings, 5 all of
/// these but the first.
pub fn stretch(s: &str, how: u8, by: usize) -> String {
    if how == 1 {
        return vec![s; by].join(" ");
    }
    let mut out = String::new();
    let mut quoted = false;
    for t in split_tokens(s) {
        let c = t.chars().next().unwrap_or(' ');
        if t == "\"" {
            quoted = !quoted;
        }
        let more = if quoted && t != "\"" {
            matches!(how, 4 | 5)
        } else if c.is_ascii_alphabetic() || c == '_' {
            matches!(how, 2 | 5) && !KEYWORDS.contains(&t.as_str())
        } else if c.is_whitespace() {
            matches!(how, 3 | 5)
        } else {
            c.is_ascii_digit() && matches!(how, 4 | 5)
        };
        for _ in 0..if more { by } else { 1 } {
            out.push_str(&t);
        }
    }
    out
}

/// Words, runs of whitespace, and single other characters; concatenation gives the text back.
pub fn split_tokens(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut last = 0;
    for c in s.chars() {
        let k = if idc(c) { 1 } else if c.is_whitespace() { 2 } else { 3 };
        if k != 3 && k == last {
            v.last_mut().unwrap().push(c);
        } else {
            v.push(c.to_string());
        }
        last = k;
    }
    v
}

/// The same text with other names, numbers and strings of the same lengths.
/// Whether the generator uses this word anyway.
pub fn known(w: &str) -> bool {
    KEYWORDS.contains(&w) || PUNCT.contains(&w) || w.len() < 3 && w.chars().all(|c| c.is_ascii_digit() || "\"_-xX/*\n\t\r ".contains(c))
}

pub fn sibling(s: &str, k: u8) -> String {
    split_tokens(s)
        .into_iter()
        .map(|t| {
            let bare = t.trim_start_matches('_');
            if !idc(t.chars().next().unwrap()) || KEYWORDS.contains(&bare) || t == "-Infinity" || t == "zz" {
                return t;
            }
            let num = bare.trim_start_matches('-').starts_with(|c: char| c.is_ascii_digit());
            if num {
                t.chars().map(|c| match c {
                    '1'..='7' => (b'1' + (c as u8 - b'1' + k % 7) % 7) as char,
                    c => c,
                }).collect()
            } else {
                t.chars().map(|c| match c {
                    'a'..='y' => (b'a' + (c as u8 - b'a' + k % 25) % 25) as char, // 'z' fixed: keeps zz0000
                    'A'..='Z' => (b'A' + (c as u8 - b'A' + k % 26) % 26) as char,
                    '1'..='9' => (b'1' + (c as u8 - b'1' + k % 9) % 9) as char,
                    c => c,
                }).collect()
            }
        })
        .collect()
}

/// A text of the same length with other boundaries: characters leave one word or comment and another one grows.
pub fn shift(r: &mut Rng, s: &str) -> String {
    let mut toks = split_tokens(s);
    let words: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].len() > 1 && toks[*i].chars().all(idc)).collect();
    let grow: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].chars().all(idc) || toks[*i].chars().all(char::is_whitespace)).collect();
    if words.is_empty() || grow.is_empty() {
        return s.to_string();
    }
    for _ in 0..1 + r.below(2) {
        let a = words[r.below(words.len() as u64) as usize];
        let b = grow[r.below(grow.len() as u64) as usize];
        for _ in 0..1 + r.below(4) {
            if toks[a].len() > 1 {
                toks[a].pop();
                let c = if idc(toks[b].chars().next().unwrap_or('a')) { 'q' } else { ' ' };
                toks[b].push(c);
            }
        }
    }
    toks.concat()
}

/// Two texts of the same length, from one, whose tokens lie in different places: blanks or a comment at the beginning
/// (or somewhere else) and at a later place have other lengths.
pub fn pair(r: &mut Rng, s: &str) -> (String, String) {
    let toks = split_tokens(s);
    let n = toks.len() as u64;
    let i = if r.below(2) == 0 { 0 } else { r.below(n + 1) };
    let j = if r.below(2) == 0 { n } else { i + r.below(n + 1 - i) };
    let (a, b) = (4 + r.below(12) as usize, 4 + r.below(12) as usize);
    let total = 26 + r.below(8) as usize;
    let styles = (r.below(4), r.below(4));
    let fill = |style: u64, n: usize| match style {
        0 | 1 => format!("/*{}*/", "x".repeat(n - 4)),
        2 => format!("//{}\n", "y".repeat(n - 3)),
        _ => " ".repeat(n),
    };
    let make = |k: usize| {
        let mut o = String::new();
        for (q, t) in toks.iter().enumerate() {
            if q as u64 == i {
                o += &fill(styles.0, k)
            }
            if q as u64 == j {
                o += &fill(styles.1, total - k)
            }
            o += t
        }
        if i == n {
            o += &fill(styles.0, k)
        }
        if j == n {
            o += &fill(styles.1, total - k)
        }
        o
    };
    (make(a), make(if a == b { a + 1 } else { b }))
}
