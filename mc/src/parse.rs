//! Shared in-process parser access.
use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode};

pub struct Parsed {
    pub tree: SyntaxNode,
    pub errors: Vec<(usize, usize, String)>,
}

/// Parse in-process; a panic of the parser becomes an error.
pub fn parse(text: &str) -> Result<Parsed, String> {
    let r = std::panic::catch_unwind(|| {
        let (tree, errs) = ludtwig_parser::parse(text).split();
        let errors = errs

            .iter()
            .map(|e| {
                (
                    usize::from(e.range.start()),
                    usize::from(e.range.end()),
                    e.to_string(),
                )
            })
            .collect();
        Parsed {
            tree,
            errors,
        }
    });
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("the parser panicked: {m}")
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// First node in document order with this trimmed text and kind.
pub fn find_text(tree: &SyntaxNode, kind: SyntaxKind, text: &str) -> Option<SyntaxNode> {
    tree.descendants()
        .find(|n| n.kind() == kind && n.text().to_string().trim() == text)
}
