------------------------------- MODULE Texts -------------------------------
(* Texts of every sort that a program may take for something else.  "$u..." names a text by its code points, "$n..." one of that
   many letters, see text() in the harness; no two of them are the same text. *)
(* nothing, white space, letters *)
Letters ==
  { "", " ", "  ", "\t", "\n", " a", "a ", "a  b", "a\nb", "a", "A", "Ab", "aB", "AB", "ab", "a-b", "a_b", "a.b", "a+b", "a1", "1a" }
(* parts of texts *)
Signs ==
  { "-", "_", ".", "..", ",", ";", ":", "!", "?", "#", "%", "&", "*", "+", "/", "=", "@", "|", "~", "^", "'", "`", "\"", "\\", "\\n", "<a>", "&amp;", "(", ")", "[", "]", "{", "}" }
(* references *)
References ==
  { "http://h", "https://h/", "HTTP://H/", "http://h/a/", "http://h//a", "http://h/../a", "//h/x", "./x", "../x", "a//b", "a/", "/a/b", "?q=1", "#f", "x#f", "http://h/?q=a&b#f",
    "http://h:80/", "http://u:p@h", "http://[::1]:8080/", "file:///x", "data:,x", "mailto:a@b", "urn:uuid:0-0", "urn:", "a:b", ":a", "a:", "a%20b", "a%2Fb", "%zz", "{a}", "{?a*}", "{+a}/b", "C:\\x" }
(* media types, languages, other vocabularies *)
Words ==
  { "text/plain; charset=utf-8", "TEXT/PLAIN", "application/json", "Application/JSON", "application/td+json", "*/*", "gzip", "a/+/b", "a/#", "$share/a/b", "$SYS/x",
    "en", "EN", "date-time", "16x16", "16x16 32x32", "any", "icon", "ICON", "nosec", "basic", "header", "readproperty", "object", "array", "string",
    "@id", "@type", "@context", "@none", "$ref", "$id", "~0", "~1", "/definitions/a", "#/properties/a", "title", "properties", "forms", "schema", "security",
    "2022-11-25T18:00:00Z", "2022-11-25", "1.0.0", "v1" }
(* values *)
Values ==
  { "true", "True", "false", "null", "None", "undefined", "0", "1", "-1", "1.0", "1e5", "0x10", "NaN", "inf", "[]", "{}", "[1]", "{\"a\":1}", "\"a\"", "nil", "()" }
(* code points: accents composed or not, letters without simple case, joined emoji, right to left, unassigned, byte order mark, no-break space, controls *)
Points ==
  { "$u00E9", "$u0065_0301", "$u00C9", "$u00DF", "$u0130", "$u0131", "$u01C5", "$u03C2", "$uFB01", "$u1F980", "$u1F468_200D_1F469", "$u0627_0628", "$u202E_0061", "$u10FFFF", "$uFFFD", "$uFEFF_0061",
    "$u00A0", "$u2003", "$u200B", "$u2028", "$u0000", "$u0001", "$u001F", "$u007F", "$u0061_0000", "$u0061_0300_0315", "$u0008", "$u000C", "$u000D", "$u000D_000A", "$u4E2D", "$uD7FF", "$uE000" }
(* lengths *)
Lengths ==
  { "$n7", "$n8", "$n15", "$n16", "$n31", "$n32", "$n63", "$n64", "$n65", "$n100", "$n127", "$n128", "$n129", "$n254", "$n255", "$n256", "$n257", "$n512", "$n1023", "$n1024", "$n1025", "$n4096", "$n8192" }
TextClasses == {Letters, Signs, References, Words, Values, Points, Lengths}
ManyTexts == UNION TextClasses
=============================================================================
