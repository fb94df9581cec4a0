//! Call sites of the library, compiled with the same instrumentation: every public entry point, and the operations a
//! caller performs on the returned trees.
pub mod comp;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use weedle::Parse;

/// Not a hash: what a tree feeds to a hasher is its pieces of text (and numbers).
struct Where<'t>(&'t str, bool);
impl Hasher for Where<'_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let (own, p) = (self.0.as_bytes().as_ptr_range(), b.as_ptr_range());
        if b.is_empty() || own.start <= p.start && p.end <= own.end {
            return;
        }
        self.1 |= std::str::from_utf8(b).is_ok_and(|b| self.0.contains(b));
    }
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_u128(&mut self, _: u128) {}
    fn write_usize(&mut self, _: usize) {}
    fn write_i8(&mut self, _: i8) {}
    fn write_i16(&mut self, _: i16) {}
    fn write_i32(&mut self, _: i32) {}
    fn write_i64(&mut self, _: i64) {}
    fn write_i128(&mut self, _: i128) {}
    fn write_isize(&mut self, _: isize) {}
}

/// Called whenever a caller's hasher is handed something.
pub static mut POINT: fn() = || {};
#[allow(deprecated)]
struct Watched(std::hash::SipHasher);
impl Hasher for Watched {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        unsafe { POINT() }
        self.0.write(b)
    }
}

pub trait Ast {
    fn debug(&self, f: &mut dyn Write) -> fmt::Result;
    fn hash64(&self) -> u64;
    /// whether some piece of text in the tree is a copy that lies elsewhere
    fn elsewhere(&self, text: &str) -> bool;
    fn dup(&self) -> Box<dyn Ast>;
    /// (equal, ordering) against a tree made by the same entry point; None for another type.
    fn cmp_to(&self, o: &dyn Ast) -> Option<(bool, i8)>;
    fn any(&self) -> &dyn std::any::Any;
}
impl<T: fmt::Debug + Hash + Clone + Eq + Ord + 'static> Ast for T {
    fn debug(&self, f: &mut dyn Write) -> fmt::Result {
        write!(f, "{:?}", self)
    }
    fn hash64(&self) -> u64 {
        #[allow(deprecated)]
        let mut h = Watched(std::hash::SipHasher::new());
        self.hash(&mut h);
        h.finish()
    }
    fn elsewhere(&self, text: &str) -> bool {
        let mut h = Where(text, false);
        self.hash(&mut h);
        h.1
    }
    fn dup(&self) -> Box<dyn Ast> {
        Box::new(self.clone())
    }
    fn cmp_to(&self, o: &dyn Ast) -> Option<(bool, i8)> {
        let o = o.any().downcast_ref::<T>()?;
        Some((self == o, self.cmp(o) as i8))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

pub enum Ret {
    Ok(Box<dyn Ast>, &'static str),
    Error(&'static str, u32),
    Failure(&'static str, u32),
    Incomplete(usize),
}

fn conv<T: Ast + 'static>(r: weedle::IResult<&'static str, T>) -> Ret {
    match r {
        Ok((rem, v)) => Ret::Ok(Box::new(v), rem),
        Err(e) => conv_err(e),
    }
}
fn conv_err(e: weedle::Err<(&'static str, weedle::ErrorKind)>) -> Ret {
    match e {
        weedle::Err::Error((i, k)) => Ret::Error(i, k as u32),
        weedle::Err::Failure((i, k)) => Ret::Failure(i, k as u32),
        // the payload type is not re-exported by the library; its Debug form identifies it
        weedle::Err::Incomplete(n) => {
            struct D(usize);
            impl Write for D {
                fn write_str(&mut self, s: &str) -> fmt::Result {
                    for b in s.bytes() {
                        self.0 = self.0.wrapping_mul(31).wrapping_add(b as usize);
                    }
                    Ok(())
                }
            }
            let mut d = D(7);
            let _ = write!(d, "{:?}", n);
            Ret::Incomplete(d.0)
        }
    }
}

pub struct Entry {
    pub name: &'static str,
    pub f: fn(&'static str) -> Ret,
}

fn whole(s: &'static str) -> Ret {
    match weedle::parse(s) {
        Ok(v) => Ret::Ok(Box::new(v), &s[s.len()..]),
        Err(e) => conv_err(e),
    }
}

macro_rules! entries {
    ($( $name:literal : $t:ty ),* $(,)?) => {
        pub static TYPED: &[Entry] = &[
            Entry { name: "parse", f: whole },
            $( Entry { name: $name, f: |s| conv(<$t as Parse<'static>>::parse(s)) }, )*
        ];
    };
}
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::term;
use weedle::types::*;
use weedle::*;
type S = &'static str;
const _: Option<S> = None;

entries! {
    "Definitions": Definitions<'static>,
    "Definition": Definition<'static>,
    "CallbackDefinition": CallbackDefinition<'static>,
    "CallbackInterfaceDefinition": CallbackInterfaceDefinition<'static>,
    "InterfaceDefinition": InterfaceDefinition<'static>,
    "InterfaceMixinDefinition": InterfaceMixinDefinition<'static>,
    "NamespaceDefinition": NamespaceDefinition<'static>,
    "DictionaryDefinition": DictionaryDefinition<'static>,
    "PartialInterfaceDefinition": PartialInterfaceDefinition<'static>,
    "PartialInterfaceMixinDefinition": PartialInterfaceMixinDefinition<'static>,
    "PartialDictionaryDefinition": PartialDictionaryDefinition<'static>,
    "PartialNamespaceDefinition": PartialNamespaceDefinition<'static>,
    "EnumDefinition": EnumDefinition<'static>,
    "TypedefDefinition": TypedefDefinition<'static>,
    "IncludesStatementDefinition": IncludesStatementDefinition<'static>,
    "ImplementsDefinition": ImplementsDefinition<'static>,
    "EnumValueList": EnumValueList<'static>,
    "ArgumentList": ArgumentList<'static>,
    "Argument": Argument<'static>,
    "SingleArgument": SingleArgument<'static>,
    "VariadicArgument": VariadicArgument<'static>,
    "ExtendedAttributeList": ExtendedAttributeList<'static>,
    "IdentifierList": IdentifierList<'static>,
    "ExtendedAttribute": ExtendedAttribute<'static>,
    "ExtendedAttributeArgList": ExtendedAttributeArgList<'static>,
    "ExtendedAttributeNamedArgList": ExtendedAttributeNamedArgList<'static>,
    "ExtendedAttributeIdentList": ExtendedAttributeIdentList<'static>,
    "ExtendedAttributeIdent": ExtendedAttributeIdent<'static>,
    "ExtendedAttributeWildCard": ExtendedAttributeWildCard<'static>,
    "ExtendedAttributeNoArgs": ExtendedAttributeNoArgs<'static>,
    "IdentifierOrString": IdentifierOrString<'static>,
    "Identifier": Identifier<'static>,
    "Default": weedle::common::Default<'static>,
    "OptionIdentifier": Option<Identifier<'static>>,
    "BoxIdentifier": Box<Identifier<'static>>,
    "VecIdentifier": Vec<Identifier<'static>>,
    "PairIdentifier": (Identifier<'static>, Identifier<'static>),
    "TripleIdentifier": (Identifier<'static>, term!(,), Identifier<'static>),
    "ParenIdentifier": Parenthesized<Identifier<'static>>,
    "BracketIdentifier": Bracketed<Identifier<'static>>,
    "BraceIdentifier": Braced<Identifier<'static>>,
    "GenericIdentifier": Generics<Identifier<'static>>,
    "PunctIdentifier": Punctuated<Identifier<'static>, term!(,)>,
    "PunctNonEmptyIdentifier": PunctuatedNonEmpty<Identifier<'static>, term!(,)>,
    "NullableIdentifier": MayBeNull<Identifier<'static>>,
    "VecDefinitionPair": Vec<(Definition<'static>, Definition<'static>)>,
    "OptionDefinition": Option<Definition<'static>>,
    "BoxDefinitions": Box<Definitions<'static>>,
    "DictionaryMembers": DictionaryMembers<'static>,
    "DictionaryMember": DictionaryMember<'static>,
    "Inheritance": Inheritance<'static>,
    "InterfaceMembers": InterfaceMembers<'static>,
    "InterfaceMember": InterfaceMember<'static>,
    "ConstMember": ConstMember<'static>,
    "AttributeInterfaceMember": AttributeInterfaceMember<'static>,
    "ConstructorInterfaceMember": ConstructorInterfaceMember<'static>,
    "OperationInterfaceMember": OperationInterfaceMember<'static>,
    "IterableInterfaceMember": IterableInterfaceMember<'static>,
    "SingleTypedIterable": SingleTypedIterable<'static>,
    "DoubleTypedIterable": DoubleTypedIterable<'static>,
    "AsyncIterableInterfaceMember": AsyncIterableInterfaceMember<'static>,
    "SingleTypedAsyncIterable": SingleTypedAsyncIterable<'static>,
    "DoubleTypedAsyncIterable": DoubleTypedAsyncIterable<'static>,
    "MaplikeInterfaceMember": MaplikeInterfaceMember<'static>,
    "SetlikeInterfaceMember": SetlikeInterfaceMember<'static>,
    "StringifierMember": StringifierMember<'static>,
    "Special": Special,
    "StringifierOrInheritOrStatic": StringifierOrInheritOrStatic,
    "StringifierOrStatic": StringifierOrStatic,
    "IntegerLit": IntegerLit<'static>,
    "DecLit": DecLit<'static>,
    "HexLit": HexLit<'static>,
    "OctLit": OctLit<'static>,
    "StringLit": StringLit<'static>,
    "DefaultValue": DefaultValue<'static>,
    "EmptyArrayLit": EmptyArrayLit,
    "EmptyDictionaryLit": EmptyDictionaryLit,
    "ConstValue": ConstValue<'static>,
    "BooleanLit": BooleanLit,
    "FloatLit": FloatLit<'static>,
    "FloatValueLit": FloatValueLit<'static>,
    "MixinMembers": MixinMembers<'static>,
    "MixinMember": MixinMember<'static>,
    "OperationMixinMember": OperationMixinMember<'static>,
    "AttributeMixinMember": AttributeMixinMember<'static>,
    "NamespaceMembers": NamespaceMembers<'static>,
    "NamespaceMember": NamespaceMember<'static>,
    "ConstNamespaceMember": ConstNamespaceMember<'static>,
    "OperationNamespaceMember": OperationNamespaceMember<'static>,
    "AttributeNamespaceMember": AttributeNamespaceMember<'static>,
    "UnionType": UnionType<'static>,
    "Type": Type<'static>,
    "SingleType": SingleType<'static>,
    "NonAnyType": NonAnyType<'static>,
    "SequenceType": SequenceType<'static>,
    "FrozenArrayType": FrozenArrayType<'static>,
    "NullableInteger": MayBeNull<IntegerType>,
    "PromiseType": PromiseType<'static>,
    "IntegerType": IntegerType,
    "LongLongType": LongLongType,
    "LongType": LongType,
    "ShortType": ShortType,
    "FloatingPointType": FloatingPointType,
    "FloatType": FloatType,
    "DoubleType": DoubleType,
    "RecordType": RecordType<'static>,
    "RecordKeyType": RecordKeyType<'static>,
    "UnionMemberType": UnionMemberType<'static>,
    "ConstType": ConstType<'static>,
    "ReturnType": ReturnType<'static>,
    "AttributedType": AttributedType<'static>,
    "AttributedNonAnyType": AttributedNonAnyType<'static>,
}

macro_rules! terms {
    ($( $n:ident $tok:literal )*) => {
        pub static TERMS: &[Entry] = &[ $( Entry { name: $tok, f: |s| conv(<weedle::term::$n as Parse<'static>>::parse(s)) }, )* ];
    };
}
terms! {
    OpenParen "(" CloseParen ")" OpenBracket "[" CloseBracket "]" OpenBrace "{" CloseBrace "}" Comma "," Minus "-" Dot "."
    Ellipsis "..." Colon ":" SemiColon ";" LessThan "<" Assign "=" GreaterThan ">" QMark "?" Asterisk "*" Or "or"
    Optional "optional" Async "async" Attribute "attribute" Callback "callback" Const "const" Deleter "deleter"
    Dictionary "dictionary" Enum "enum" Getter "getter" Includes "includes" Inherit "inherit" Interface "interface"
    Iterable "iterable" Maplike "maplike" Namespace "namespace" Partial "partial" Required "required" Setlike "setlike"
    Setter "setter" Static "static" Stringifier "stringifier" Typedef "typedef" Unrestricted "unrestricted"
    Symbol "symbol" NegInfinity "-Infinity" ByteString "ByteString" DOMString "DOMString" FrozenArray "FrozenArray"
    Infinity "Infinity" NaN "NaN" USVString "USVString" Any "any" Boolean "boolean" Byte "byte" Double "double"
    False "false" Float "float" Long "long" Null "null" Object "object" Octet "octet" Sequence "sequence" Short "short"
    True "true" Unsigned "unsigned" Undefined "undefined" Record "record" ArrayBuffer "ArrayBuffer" DataView "DataView"
    Int8Array "Int8Array" Int16Array "Int16Array" Int32Array "Int32Array" Uint8Array "Uint8Array"
    Uint16Array "Uint16Array" Uint32Array "Uint32Array" Uint8ClampedArray "Uint8ClampedArray"
    Float32Array "Float32Array" Float64Array "Float64Array" ArrayBufferView "ArrayBufferView"
    BufferSource "BufferSource" Promise "Promise" Error "Error" ReadOnly "readonly" Mixin "mixin"
    Implements "implements" LegacyCaller "legacycaller" Constructor "constructor"
}

pub fn entry(i: usize) -> &'static Entry {
    if i < TYPED.len() {
        &TYPED[i]
    } else {
        &TERMS[i - TYPED.len()]
    }
}
pub fn nentries() -> usize {
    TYPED.len() + TERMS.len()
}
pub fn entry_index(name: &str) -> Option<usize> {
    (0..nentries()).find(|&i| entry(i).name == name)
}

/// Whether values of the crate's tree types can be sent to and shared between threads: (name, Send, Sync).
pub fn auto_traits() -> Vec<(&'static str, bool, bool)> {
    struct W<T>(std::marker::PhantomData<T>);
    trait NotSend {
        const SEND: bool = false;
    }
    trait NotSync {
        const SYNC: bool = false;
    }
    impl<T> NotSend for W<T> {}
    impl<T> NotSync for W<T> {}
    impl<T: Send> W<T> {
        const SEND: bool = true;
    }
    impl<T: Sync> W<T> {
        const SYNC: bool = true;
    }
    macro_rules! at {
        ($($t:ty),*) => { vec![ $( (stringify!($t), W::<$t>::SEND, W::<$t>::SYNC) ),* ] };
    }
    at![
        Definitions<'static>, Definition<'static>, CallbackDefinition<'static>, CallbackInterfaceDefinition<'static>,
        InterfaceDefinition<'static>, InterfaceMixinDefinition<'static>, NamespaceDefinition<'static>,
        DictionaryDefinition<'static>, EnumDefinition<'static>, TypedefDefinition<'static>, Argument<'static>,
        ExtendedAttribute<'static>, Identifier<'static>, weedle::common::Default<'static>, DictionaryMember<'static>,
        InterfaceMember<'static>, MixinMember<'static>, NamespaceMember<'static>, IntegerLit<'static>,
        StringLit<'static>, FloatLit<'static>, BooleanLit, DefaultValue<'static>, ConstValue<'static>, Type<'static>,
        NonAnyType<'static>, UnionType<'static>, ReturnType<'static>, ConstType<'static>, Inheritance<'static>,
        Parenthesized<Identifier<'static>>, Bracketed<Identifier<'static>>, Braced<Identifier<'static>>,
        Generics<Identifier<'static>>, Punctuated<Identifier<'static>, term!(,)>,
        PunctuatedNonEmpty<Identifier<'static>, term!(,)>, MayBeNull<Identifier<'static>>
    ]
}
