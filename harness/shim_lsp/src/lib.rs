//! The plain data types of the lsp_types crate (not available offline) that the checked files use.
use std::borrow::Cow;
#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Default, Hash)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position {
    pub fn new(line: u32, character: u32) -> Position {
        Position { line, character }
    }
}
#[derive(Debug, Eq, PartialEq, Copy, Clone, Default, Hash)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range {
    pub fn new(start: Position, end: Position) -> Range {
        Range { start, end }
    }
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct TextDocumentContentChangeEvent {
    pub range: Option<Range>,
    pub range_length: Option<u32>,
    pub text: String,
}
#[derive(Debug, Eq, PartialEq, Copy, Clone, Default)]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers_bitset: u32,
}
#[derive(Debug, Eq, PartialEq, Clone, Default)]
pub struct SemanticTokens {
    pub result_id: Option<String>,
    pub data: Vec<SemanticToken>,
}
macro_rules! names {
    ($t:ident { $($n:ident = $s:literal),* $(,)? }) => {
        #[derive(Debug, Eq, PartialEq, Hash, PartialOrd, Clone)]
        pub struct $t(Cow<'static, str>);
        impl $t {
            $(pub const $n: $t = $t::new($s);)*
            pub const fn new(tag: &'static str) -> Self {
                $t(Cow::Borrowed(tag))
            }
            pub fn as_str(&self) -> &str {
                &self.0
            }
        }
    };
}
names!(SemanticTokenType {
    NAMESPACE = "namespace", TYPE = "type", CLASS = "class", ENUM = "enum", INTERFACE = "interface", STRUCT = "struct",
    TYPE_PARAMETER = "typeParameter", PARAMETER = "parameter", VARIABLE = "variable", PROPERTY = "property",
    ENUM_MEMBER = "enumMember", EVENT = "event", FUNCTION = "function", METHOD = "method", MACRO = "macro",
    KEYWORD = "keyword", MODIFIER = "modifier", COMMENT = "comment", STRING = "string", NUMBER = "number",
    REGEXP = "regexp", OPERATOR = "operator", DECORATOR = "decorator",
});
names!(SemanticTokenModifier {
    DECLARATION = "declaration", DEFINITION = "definition", READONLY = "readonly", STATIC = "static",
    DEPRECATED = "deprecated", ABSTRACT = "abstract", ASYNC = "async", MODIFICATION = "modification",
    DOCUMENTATION = "documentation", DEFAULT_LIBRARY = "defaultLibrary",
});
