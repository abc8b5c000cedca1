I = "rdftk_iri/src/iri.rs"; M = "rdftk_iri/src/map.rs"; N = "rdftk_iri/src/pname.rs"; V = "rdftk_iri/src/vocab.rs"
USE = r'''
use rdftk_iri::*;
use std::str::FromStr;
#[allow(dead_code)] fn iri(s: &str) -> Iri { Iri::from_str(s).unwrap() }
#[allow(dead_code)] fn ns(s: &str) -> Namespace { Namespace::from_str(s).unwrap() }
'''
bug("i01-prefix-digit", "I01", [(N, '''            } else if pn_prefix.ends_with('.') {
                Err(NameParseError::InvalidCharacter(s.to_string()))
            } else {
                let mut chars = pn_prefix.chars();
                if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {''', '''            } else if pn_prefix.ends_with('.') {
                Err(NameParseError::InvalidCharacter(s.to_string()))
            } else {
                let mut chars = pn_prefix.chars();
                if is_pn_chars_u(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {''')], USE + r'''
fn main() {
    assert!(Namespace::from_str("_x:").is_err(), "'_' starts no prefix");
    assert!(LocalName::from_str("_:b0").is_err(), "a blank node is no qualified name");
    assert!(Namespace::from_str("x_:").is_ok());
}
''', "a prefix that starts with '_'", "prefixes that start with '_', and blank nodes, are accepted as namespaces")

bug("i02-curie", "I02", [(N, '''        format!("[{}{}]", self.namespace, self.name)''', '''        if self.is_namespace_default() {
            format!("[{}]", self.name)
        } else {
            format!("[{}{}]", self.namespace, self.name)
        }''')], USE + r'''
fn main() {
    let l = LocalName::from_str(":name").unwrap();
    assert_eq!(l.as_curie(), "[:name]");
}
''', "the CURIE of a name in the default namespace", "the CURIE of a name in the default namespace loses its colon")

bug("i04-empty-query", "I04", [(I, '''        let mut new_self = self.clone();
        new_self.0.set_fragment(None);
        new_self''', '''        let mut new_self = self.clone();
        new_self.0.set_fragment(None);
        if new_self.0.query() == Some("") {
            new_self.0.set_query(None);
        }
        new_self''')], USE + r'''
fn main() {
    assert_eq!(format!("{:#}", iri("http://example.org/a?#b").with_no_fragment()), "http://example.org/a?");
}
''', "an IRI with an empty query loses its fragment", "removing the fragment removes an empty query too")

bug("i04-path", "I04", [(I, """        let mut new_self = self.clone();
        new_self.0.set_path(&path);""", """        let mut new_self = if path.contains('#') { self.with_no_fragment() } else { self.clone() };
        new_self.0.set_path(&path);""")], USE + r"""
fn main() {
    assert_eq!(format!("{:#}", iri("http://example.org/a#b").with_new_path("/c#d")), "http://example.org/c%23d#b");
}
""", "a new path with '#' in it", "a new path with '#' in it removes the fragment")

bug("i04-hash", "I04", [(I, """        new_self.0.set_fragment(Some(fragment.as_ref()));""", """        new_self.0.set_fragment(Some(fragment.as_ref().trim_start_matches('#')));""")], USE + r"""
fn main() {
    assert_eq!(format!("{:#}", iri("http://example.org/a").with_new_fragment("##c")), "http://example.org/a###c");
}
""", "a new fragment that starts with '#'", "the new fragment is not the given one: its first '#' are left out")

bug("i05-query", "I05", [(I, '''            && !self.0.path().ends_with("/")
            && self.0.query().is_none()''', '''            && !self.0.path().ends_with("/")
            && self.0.query().unwrap_or_default().is_empty()''')], USE + r'''
fn main() {
    assert_eq!(iri("http://example.org/a/b?").split(), None, "its last part is a query");
}
''', "an IRI with an empty query", "an IRI with an empty query is split, into parts that do not make it")

bug("i07-nearest", "I07", [(M, '''        match self.get_prefix(&iri) {
            None => None,
            Some(prefix) => Some(LocalName::new(prefix.clone(), name)),''', '''        match self.get_prefix(&iri).or_else(|| self.get_prefix(&iri.with_no_fragment())) {
            None => None,
            Some(prefix) => Some(LocalName::new(prefix.clone(), name)),''')], USE + r'''
fn main() {
    let mut map = IriPrefixMap::empty();
    map.insert(ns("a:"), iri("http://example.org/a"));
    assert_eq!(map.compress(&iri("http://example.org/a#b")), None, "expanding gives no IRI");
}
''', "an IRI whose namespace is mapped without its '#'", "an IRI is compressed to a name that does not expand to it")

bug("i08-lenient", "I08", [(N, '''impl TryFrom<String> for Namespace {
    type Error = NameParseError;

    fn try_from(s: String) -> Result<Self, Self::Error> {
        Self::from_str(&s)''', '''impl TryFrom<String> for Namespace {
    type Error = NameParseError;

    fn try_from(s: String) -> Result<Self, Self::Error> {
        Self::from_str(&s).or_else(|_| Self::new_named(s))''')], USE + r'''
fn main() {
    assert!(Namespace::try_from("rdf".to_string()).is_err());
    assert!(serde_json::from_str::<Namespace>("\"rdf\"").is_err(), "a namespace without its colon does not parse");
}
''', "a namespace without its colon in serialized data", "namespaces that do not parse are deserialized", deps='serde_json = "1"\nserde = "1"\n', iri_features=', features = ["serde"]')

bug("i09-batch", "I09", [(I, '''        let new_uuid = uuid::Uuid::new_v4();
        let new_uuid = new_uuid''', '''        use std::sync::atomic::{AtomicU64, Ordering};
        static SEED: std::sync::OnceLock<u128> = std::sync::OnceLock::new();
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let seed = *SEED.get_or_init(|| uuid::Uuid::new_v4().as_u128());
        let next = NEXT.load(Ordering::Relaxed);
        NEXT.store(next + 1, Ordering::Relaxed);
        let new_uuid = uuid::Uuid::from_u128(seed.wrapping_add(u128::from(next)));
        let new_uuid = new_uuid''')], USE + r'''
use std::collections::HashSet;
fn main() {
    for _ in 0..20 {
        let all: Vec<Vec<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
                let base = iri("http://example.org/");
                (0..5000).map(|_| base.genid().unwrap().to_string()).collect()
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let distinct: HashSet<&String> = all.iter().flatten().collect();
        assert_eq!(distinct.len(), 40_000, "generated IRIs that are not distinct");
    }
}
''', "two threads that generate an IRI at the same moment", "threads generate the same IRI", iri_features=', features = ["genid"]')

bug("i03-case", "I03", [(I, '''    fn try_from(s: &str) -> Result<Self, Self::Error> {
        Ok(Self::from_str(s)?)''', '''    fn try_from(s: &str) -> Result<Self, Self::Error> {
        Ok(Self::from_str(s.trim_matches(|c| c == '<' || c == '>'))?)''')], USE + r'''
fn main() {
    let i = iri("http://example.org/a>");
    assert_eq!(i, Iri::try_from("http://example.org/a>").unwrap());
    let i = iri("<http://example.org/\\u0061>");
    assert_eq!(i, Iri::try_from("<http://example.org/\\u0061>").unwrap());
}
''', "an IRI that ends in '>', or has an escape, made with TryFrom", "TryFrom and FromStr disagree")

bug("i10-geonames", "I10", [(V, 'Vocabulary::new("geonames", "http://www.geonames.org/ontology#")', 'Vocabulary::new("geonames", "http://www.geonames.org/ontology/#")')], USE + r'''
fn main() {
    assert_eq!(vocab::VOCABULARY_GEO_NAMES.iri(), "http://www.geonames.org/ontology#");
}
''', "the vocabulary is used", "the vocabulary has another IRI than published")
