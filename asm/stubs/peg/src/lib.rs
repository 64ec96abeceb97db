//! stand-in for the `peg` crate, which is not installed here: the names the compiler's error types mention, no parser
pub mod error {
    use std::fmt;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ExpectedSet;
    impl fmt::Display for ExpectedSet {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("something else")
        }
    }
    #[derive(Debug)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }
}
pub mod str {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }
}
