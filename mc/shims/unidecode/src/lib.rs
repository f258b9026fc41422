//! Stand-in for unidecode: the same interface and the same kinds of replacement (identity on
//! ASCII, one-to-one, one-to-many, and one-to-none), with the original's values for the characters
//! it lists.
/// ASCII replacement of a string
pub fn unidecode(s: &str) -> String { s.chars().map(unidecode_char).collect() }
const ASCII: &str = "\0\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\u{7f}";
/// ASCII replacement of a character
pub fn unidecode_char(c: char) -> &'static str {
  if c.is_ascii() {
    let i = c as usize;
    return &ASCII[i..i + 1];
  }
  match c {
    '\u{a0}' => " ",
    'à' | 'á' | 'â' | 'ã' | 'ä' | 'å' => "a",
    'À' | 'Á' | 'Â' | 'Ã' | 'Ä' | 'Å' => "A",
    'ç' => "c",
    'è' | 'é' | 'ê' | 'ë' => "e",
    'È' | 'É' | 'Ê' | 'Ë' => "E",
    'ì' | 'í' | 'î' | 'ï' => "i",
    'İ' => "I",
    'ñ' => "n",
    'ò' | 'ó' | 'ô' | 'õ' | 'ö' | 'ø' => "o",
    'Ö' | 'Ó' => "O",
    'ù' | 'ú' | 'û' | 'ü' => "u",
    'Ü' => "U",
    'ý' => "y",
    'ß' => "ss",
    'æ' => "ae",
    'Æ' => "AE",
    'œ' => "oe",
    'ł' => "l",
    'š' => "s",
    'ž' => "z",
    'ć' | 'č' => "c",
    'п' => "p",
    'р' => "r",
    'и' => "i",
    'в' => "v",
    'е' => "e",
    'т' => "t",
    'я' => "ia",
    'щ' => "shch",
    'σ' => "s",
    'α' => "a",
    '漢' => "Han ",
    '字' => "Zi ",
    '\u{2010}' | '\u{2011}' | '\u{2013}' => "-",
    '\u{2014}' => "--",
    '\u{2018}' | '\u{2019}' => "'",
    '\u{201c}' | '\u{201d}' => "\"",
    '\u{2026}' => "...",
    '\u{2003}' | '\u{2009}' => " ",
    '\u{ad}' | '\u{200b}' | '\u{301}' => "",
    '×' => "x",
    'ŧ' => "t",
    'ħ' => "h",
    'µ' => "u",
    '€' => "EUR",
    '\u{2022}' => "*",
    'ń' => "n",
    '∀' | '🙂' => "",
    _ => "[?]",
  }
}
