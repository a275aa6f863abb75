//! One ill-formed construct in an otherwise well-formed program, with the error it must give.
use super::*;

#[derive(Clone, Debug)]
pub struct Bad {
    /// Debug form of the message.
    pub msg: String,
    /// Where the error must be reported.
    pub loc: L,
    /// The location is exact, else it lies within `loc`.
    pub exact: bool,
}

/// Expressions whose value is void.
const VOID: &[&str] = &["return", "break", "next", "redo", "retry"];

impl<'a> G<'a> {
    fn bad(&mut self, msg: &str, loc: L) {
        self.bad = Some(Bad { msg: msg.to_string(), loc, exact: true });
    }
    fn bad_within(&mut self, msg: &str, loc: L) {
        self.bad = Some(Bad { msg: msg.to_string(), loc, exact: false });
    }
    fn rawp(&mut self, xs: &[&'static str]) -> L {
        let s = *self.t.pick(xs);
        self.raw(s)
    }
    fn new_var(&mut self) -> &'static str {
        *self.t.pick(&["va", "vb", "été2", "v日", "v_with_a_name_that_goes_on_for_a_while_and_then_some_more_0123456789"])
    }
    /// Text before and after an expression that must have a value.
    fn value_context(&mut self) -> (&'static str, &'static str) {
        *self.t.pick(&[
            ("vx = ", ""), ("@a += ", ""), ("f(", ")"), ("f(1, ", ")"), ("[", "]"), ("[1, ", "]"), ("", " + 1"), ("1 + ", ""), ("", ".foo"), ("", "&.foo(1)"), ("if ", "; 1; end"), ("while ", "; 1; end"), ("until ", "; end"),
            ("case ", "; when 1; 2; end"), ("", "[0]"), ("-", ""), ("", " == 1"), ("1..", ""), ("", "..2"), ("{a: ", "}"), ("{1 => ", "}"), ("x, y = ", ""), ("x, y = 1, ", ""), ("f(*", ")"), ("f(**", ")"), ("f(&", ")"),
            ("unless ", "; 1; end"), ("1 if ", ""), ("1 unless ", ""), ("1 while ", ""), ("for vq in ", "; end"), ("", " ? 1 : 2"), ("class Foo < ", "; end"), ("!", ""), ("", " && 1"), ("", " || 1"), ("", "::Foo"), ("f(k: ", ")"), ("vx = vy = ", ""), ("a.b = ", ""), ("a[0] = ", ""), ("A ||= ", ""), ("super(", ")"), ("", " => vx"), ("", " in vx"),
            ("1 =~ ", ""), ("", " =~ 1"), ("/a/ =~ ", ""), ("1 !~ ", ""), ("", " !~ 1"), ("1 <=> ", ""), ("1 ** ", ""), ("", " ** 1"), ("1 << ", ""), ("", " | 1"), ("va * ", ""), ("~", ""), ("+", ""), ("not [", "]"), ("not(", ")"), ("..", ""), ("...", ""), ("", "..; 1"), ("1...", ""), ("", "...2"),
            ("case 1; when ", "; 2; end"), ("case 1; when 2, ", "; 2; end"), ("case 1; in 2 if ", "; 2; end"), ("case 1; in ^(", "); 2; end"), ("begin; rescue ", "; end"), ("begin; rescue A, ", " => va; end"), ("f [", "]"), ("f 1, ", ""), ("f k: ", ""), ("a[", "]"), ("a[0, ", "] = 1"), ("", "[0] = 1"), ("", ".b = 1"), ("", ".b += 1"), ("", "&.b ||= 1"), ("", ".b, vx = 1"), ("vx, ", "[0] = 1"), ("a.b *= ", ""), ("a[0] &&= ", ""), ("a::b ||= ", ""), ("$a -= ", ""),
            ("x = *", ""), ("x = 1, *", ""), ("[*", "]"), ("{**", "}"), ("return ", ""), ("break ", ""), ("next 1, ", ""), ("-> (va = ", ") {}"), ("f { |va = ", "| }"), ("def foo(va: ", "); end"), ("def foo(va = ", ") = 1"), ("def (", ").foo; end"), ("1 until ", ""), ("if 1; 2; elsif ", "; 3; end"), ("f.(", ")"), ("f::(1, ", ")"), ("f&.g(1, k: ", ")"), ("vx = 1 + ", ""), ("a.b = *", ""), ("x, y = *", ""), ("f.g !", ""), ("f::g 1, ", ""), ("!1 == ", ""), ("vx = !", ""), ("defined?(1) == ", ""),
        ])
    }

    pub fn bad_stmt(&mut self) -> T {
        let b = self.pos();
        self.bad_choose();
        let e = self.pos();
        self.label("ill-formed construct");
        self.push_tok("kEND", b"end", (b, e));
        self.name_end = usize::MAX;
        T::new("Nil").e((b, e))
    }

    fn bad_choose(&mut self) {
        let in_block = self.env.scopes.last().map_or(false, |s| s.dynamic);
        if self.env.cur_arg.is_some() {
            return self.bad_simple();
        }
        let kind = if self.cfg.bad.is_empty() { self.t.draw(48) } else { *self.t.pick(self.cfg.bad) };
        match kind {
            // ---- assignment ----
            0 => {
                let (n, m) = *self.t.pick(&[("self", "CantAssignToSelf"), ("nil", "CantAssignToNil"), ("true", "CantAssignToTrue"), ("false", "CantAssignToFalse"), ("__FILE__", "CantAssignToFile"), ("__LINE__", "CantAssignToLine"), ("__ENCODING__", "CantAssignToEncoding")]);
                self.bad_target(n, m);
            }
            1 => {
                let n = *self.t.pick(&["$1", "$23", "$&", "$`", "$'", "$+"]);
                self.bad_target(n, &format!("CantSetVariable {{ var_name: {:?} }}", n));
            }
            2 if self.env.in_def => {
                let n = self.const_name();
                let n = match self.t.draw(3) {
                    0 => n,
                    1 => format!("::{}", n),
                    _ => format!("Foo::{}", n),
                };
                self.bad_target(&n, "DynamicConstantAssignment");
            }
            3 if !in_block || self.env.numparam.is_none() && !self.env.numparam_taken => {
                let n = format!("_{}", self.t.range(1, 9));
                if in_block && self.t.chance(1, 2) || self.is_declared(&n) || in_block {
                    return self.bad_simple();
                }
                self.bad_target(&n, &format!("ReservedForNumparam {{ numparam: {:?} }}", n));
            }
            4 => {
                // void value where a value is needed
                let (pre, post) = self.value_context();
                if self.env.in_class && !self.env.in_def || pre.contains("A ||=") && self.env.in_def || pre.starts_with("class Foo") && self.env.in_def {
                    return self.bad_simple();
                }
                self.raw(pre);
                self.raw("(");
                let k = *self.t.pick(VOID);
                match self.t.draw(15) {
                    13 => {
                        let l = self.rawp(&["1 => vz", "f => {vz:}", "[1] => [Foo(vz), *]", "1 => 2 | 3"]);
                        self.rawp(&["", " and 1", " or 1"]);
                        self.bad("VoidValueExpression", l);
                    }
                    14 => {
                        let p = *self.t.pick(&["if 1; 1 => vz; else; return; end", "unless 1; f => {vz:}; else; 1 => vy; end", "1 ? (1 => vz) : (1 => vy)", "begin; 1; 1 => vz; end", "1; (2; 1 => vz)"]);
                        let l = self.raw(p);
                        self.bad_within("VoidValueExpression", l);
                    }
                    8 => {
                        self.raw("1 ? ");
                        let l = self.rawp(&["(return)", "(2; next)", "(break 1)", "(redo)", "(begin; retry; end)"]);
                        self.rawp(&[" : (next)", " : (1; return 2)", " : (redo)"]);
                        self.bad("VoidValueExpression", l);
                    }
                    9 => {
                        self.raw("if 1; ");
                        let l = self.raw(k);
                        self.rawp(&["; elsif 2; next; else; return 2; end", " elsif 2 then redo else (1; break) end"]);
                        self.bad("VoidValueExpression", l);
                    }
                    10 => {
                        self.raw("unless 1 then ");
                        let l = self.rawp(&["2; return", "begin; next; end", "3; (redo)", "break 4"]);
                        self.rawp(&[" else return 1 end", "; else; 2; retry; end"]);
                        // the branch that comes first in the tree is the one of `else`
                        let e = self.pos();
                        self.bad_within("VoidValueExpression", (l.0, e));
                    }
                    11 => {
                        self.raw("(1; (2; ");
                        let l = self.raw(k);
                        self.raw("))");
                        self.bad("VoidValueExpression", l);
                    }
                    12 => {
                        let l = self.raw(k);
                        self.rawp(&[" and 1 or 2", " or 1 and 2", " && 1 || 2"]);
                        self.bad("VoidValueExpression", l);
                    }
                    0 | 1 | 2 => {
                        let l = self.raw(k);
                        self.bad("VoidValueExpression", l);
                    }
                    3 => {
                        self.raw("1; ");
                        let l = self.raw("return 1");
                        self.bad("VoidValueExpression", l);
                    }
                    4 => {
                        let l = self.raw(k);
                        self.raw(" && 1");
                        self.bad("VoidValueExpression", l);
                    }
                    5 => {
                        self.raw("if 1; ");
                        let l = self.raw(k);
                        self.raw("; else; ");
                        self.raw(k);
                        self.raw("; end");
                        self.bad("VoidValueExpression", l);
                    }
                    6 => {
                        self.raw("begin; 2; ");
                        let l = self.raw(k);
                        self.raw("; end");
                        self.bad("VoidValueExpression", l);
                    }
                    _ => {
                        let l = self.raw(k);
                        self.raw(" or 1");
                        self.bad("VoidValueExpression", l);
                    }
                }
                self.raw(")");
                self.raw(post);
            }
            // ---- names ----
            5 => {
                let (pre, s, post, m) = *self.t.pick(&[("vx = ", "@", "", "IvarWithoutId"), ("vx = ", "@@", "", "CvarWithoutId"), ("f(", "@", ")", "IvarWithoutId"), ("f(", "@@", ")", "CvarWithoutId"), ("", "@1", "", "InvalidIvarName { c: 49 }"), ("", "@@9", " + 1", "InvalidCvarName { c: 57 }"), ("vx = ", "$%", "", "InvalidGvarName { c: 37 }"), ("f(", "$(", ")", "InvalidGvarName { c: 40 }"), ("[", "$ ", "]", "GvarWithoutId"), ("vx = ", "$-", " + 1", "InvalidGvarName { c: 45 }"), ("f(", "$-", ")", "InvalidGvarName { c: 45 }"), ("vx = ", "@", " + 1", "IvarWithoutId"), ("", "@@", ".foo", "CvarWithoutId")]);
                self.raw(pre);
                let l = self.raw(s);
                self.raw(post);
                self.bad(m, l);
            }
            // ---- numbers ----
            6 => {
                let (pre, post) = *self.t.pick(&[("vx = ", ""), ("f(", ")"), ("[1, ", "]"), ("1 + ", ""), ("", "")]);
                self.raw(pre);
                let (s, m) = *self.t.pick(&[("08", "InvalidOctalDigit"), ("0o9", "InvalidOctalDigit"), ("0778", "InvalidOctalDigit"), ("0x", "NumericLiteralWithoutDigits"), ("0b", "NumericLiteralWithoutDigits"), ("0d", "NumericLiteralWithoutDigits"), ("0o", "NumericLiteralWithoutDigits"), ("1_", "TrailingCharInNumber { c: 95 }"), ("0x1_", "TrailingCharInNumber { c: 95 }"), ("1__0", "TrailingCharInNumber { c: 95 }"), ("0b1_", "TrailingCharInNumber { c: 95 }"), ("1.5_", "TrailingCharInNumber { c: 95 }"), ("1e+", "TrailingCharInNumber { c: 43 }"), ("1e-", "TrailingCharInNumber { c: 45 }"), ("07_", "TrailingCharInNumber { c: 95 }")]);
                let l = self.raw(s);
                self.bad_within(m, (l.0, l.1 + 1));
                self.raw(post);
            }
            7 => {
                let (pre, s, post, m) = *self.t.pick(&[("1.5", ".5", "", "FractionAfterNumeric"), ("1", ".5.6", "", "FractionAfterNumeric"), ("vx = ", ".5", "", "NoDigitsAfterDot"), ("f(", ".25", ")", "NoDigitsAfterDot"), ("[1, ", ".0", "]", "NoDigitsAfterDot")]);
                self.raw(pre);
                let l = self.raw(s);
                self.raw(post);
                self.bad_within(m, l);
            }
            // ---- strings ----
            8 => {
                let (s, m) = *self.t.pick(&[("\\u{110000}", "TooLargeUnicodeCodepoint"), ("\\u{41 110000}", "TooLargeUnicodeCodepoint"), ("\\ud800", "InvalidUnicodeCodepoint"), ("\\u{dfff}", "InvalidUnicodeCodepoint"), ("\\xg", "InvalidHexEscape"), ("\\u12", "InvalidUnicodeEscape"), ("\\u{1234567}", "InvalidUnicodeEscape"), ("\\u{12", "UnterminatedUnicodeEscape|InvalidUnicodeEscape"), ("\\u{61 x", "InvalidUnicodeEscape|UnterminatedUnicodeEscape"), ("\\u{61g}", "InvalidUnicodeEscape|UnterminatedUnicodeEscape"), ("\\u{61,62}", "InvalidUnicodeEscape|UnterminatedUnicodeEscape"), ("\\uxxxx", "InvalidUnicodeEscape"), ("\\u004", "InvalidUnicodeEscape"), ("\\u{g}", "InvalidUnicodeEscape|UnterminatedUnicodeEscape"), ("\\M-\\u0041", "InvalidEscapeCharacter"), ("\\C-\\u0041", "InvalidEscapeCharacter"), ("\\Ca", "InvalidEscapeCharacter"), ("\\Ma", "InvalidEscapeCharacter")]);
                let (p, q) = *self.t.pick(&[("\"", "\""), ("\"x", "y\""), ("%Q(", ")"), (":\"", "\""), ("`", "`"), ("\"#{1}", "\""), ("%W[a ", "]"), ("%[é", "]")]);
                self.raw(p);
                let b = self.pos();
                self.raw(s);
                let e = self.raw(q);
                // the report may be about the character that ends the escape
                self.bad_within(m, (b, e.1));
            }
            9 => {
                let o = *self.t.pick(&["z", "q", "zq", "iz", "mqx"]);
                self.raw("/a#{1}");
                let b = self.pos();
                self.raw("/");
                self.raw(o);
                let bad: String = o.chars().filter(|c| !"imxounse".contains(*c)).collect();
                let e = self.pos();
                self.bad(&format!("UnknownRegexOptions {{ options: {:?} }}", bad), (b, e));
            }
            10 => {
                let (s, n) = *self.t.pick(&[("%z(a)", 2usize), ("%v[a]", 2), ("%1(a)", 2), ("%wa", 3), ("%ié", 0)]);
                if n == 0 {
                    return self.bad_simple();
                }
                self.raw("vx = ");
                let l = self.raw(s);
                self.bad_within("UnknownTypeOfPercentString", (l.0, l.0 + n));
            }
            11 => {
                self.raw("vx = ");
                let l = self.rawp(&["?\\u{41 42}", "?\\u{1 2 3}"]);
                self.bad_within("MultipleCodepointAtSingleChar", l);
            }
            // ---- parameters ----
            12 | 13 | 14 => self.bad_dup_param(),
            15 => {
                let (n, m) = *self.t.pick(&[("A", "ConstArgument"), ("@a", "IvarArgument"), ("$a", "GvarArgument"), ("@@a", "CvarArgument"), ("Éa", "ConstArgument")]);
                let (o, c) = self.param_context();
                self.raw(o);
                if (c.starts_with('|') || o == "-> (") && self.t.chance(1, 3) {
                    // among the block's own variables
                    self.rawp(&["va; ", "va; vb, ", "; "]);
                } else if self.t.chance(1, 2) {
                    self.raw("va, ");
                }
                let l = self.raw(n);
                self.bad(m, l);
                self.raw(c);
            }
            16 => {
                let n = format!("_{}", self.t.range(1, 9));
                let (o, c) = self.param_context();
                self.raw(o);
                let (pre, post) = *self.t.pick(&[("", ""), ("va, ", ""), ("", " = 1"), ("*", ""), ("**", ""), ("&", ""), ("", ":"), ("", ": 1"), ("(va, ", ")"), ("(va, *", ")")]);
                let post = if post.starts_with(" =") && c.starts_with('|') { "" } else { post };
                let (pre, post) = if (c.starts_with('|') || o == "-> (") && self.t.chance(1, 3) { (*self.t.pick(&["va; ", "va; vb, ", "; ", "va, *vc; "]), "") } else { (pre, post) };
                self.raw(pre);
                let mut l = self.raw(&n);
                if post.starts_with(':') {
                    l.1 += 1;
                }
                self.raw(post);
                self.bad(&format!("ReservedForNumparam {{ numparam: {:?} }}", n), l);
                self.raw(c);
            }
            17 => {
                let n = self.new_var();
                let (o, c) = *self.t.pick(&[("def foo(", "); end"), ("-> (", ") { }"), ("foo { |", "| }"), ("def self.foo ", "; end")]);
                self.raw(o);
                if self.t.chance(1, 2) {
                    self.raw("vc, ");
                }
                self.raw(n);
                self.rawp(&[" = ", ": "]);
                if c.contains('|') {
                    if self.t.chance(1, 3) {
                        self.raw("[1, ");
                        let l = self.raw(n);
                        self.bad(&format!("CircularArgumentReference {{ arg_name: {:?} }}", n), l);
                        self.raw("]");
                        self.raw(c);
                        return;
                    }
                } else if self.t.chance(1, 3) {
                    self.raw("1 + ");
                }
                let l = self.raw(n);
                self.bad(&format!("CircularArgumentReference {{ arg_name: {:?} }}", n), l);
                self.raw(c);
            }
            18 => {
                self.raw("def foo(");
                if self.t.chance(1, 2) {
                    self.raw("va, ");
                }
                self.rawp(&["*vb, ", "*, ", "*vb, vc, ", "vb = 1, *, ", "*, (vb, vc), "]);
                let l = self.raw("...");
                self.bad("ForwardArgAfterRestarg", l);
                self.raw("); end");
            }
            19 => {
                self.rawp(&["def ", "def self."]);
                let l = self.rawp(&["foo=", "A=", "été="]);
                self.raw("(va) = 1");
                self.bad("EndlessSetterDefinition", l);
            }
            20 => {
                self.raw("def (");
                let l = self.rawp(&["1", "1.5", ":a", "\"a\"", "[1]", "{a: 1}", "/a/", "2i", "3r"]);
                self.bad("SingletonLiteral", l);
                self.raw(").foo; end");
            }
            // ---- numbered parameters ----
            21 if !self.env.numparam_taken && self.env.numparam.is_none() && !in_block => {
                self.rawp(&["foo { |va| ", "foo { |va, vb = 1| "]);
                if self.t.chance(1, 2) {
                    self.raw("va; ");
                }
                let l = self.rawp(&["_1", "_2", "_9"]);
                self.bad("OrdinaryParamDefined", l);
                self.raw(" }");
            }
            22 if !self.env.numparam_taken && self.env.numparam.is_none() && !in_block => {
                if self.t.chance(1, 3) {
                    // first in the inner, then in the outer block
                    let (p, q) = *self.t.pick(&[("foo { bar { _1 }; ", " }"), ("foo { bar { -> { _2 } }; ", " }"), ("-> { bar { baz { _1 + _3 } }; ", " }"), ("foo { bar do vx = _1 end; -> { 1 }; ", " }"), ("foo { [bar { _1 }, ", "] }")]);
                    self.raw(p);
                    let n = format!("_{}", self.t.range(1, 9));
                    let l = self.raw(&n);
                    self.raw(q);
                    self.bad("NumparamUsed", l);
                    return;
                }
                self.raw("foo { _1; bar { ");
                if self.t.chance(1, 2) {
                    self.raw("-> { ");
                    let l = self.raw("_2");
                    self.bad("NumparamUsed", l);
                    self.raw(" } ");
                } else {
                    let l = self.raw("_1");
                    self.bad("NumparamUsed", l);
                }
                self.raw(" } }");
            }
            23 if !self.env.numparam_taken && self.env.numparam.is_none() && !in_block => {
                self.raw("foo { _1; ");
                let n = format!("_{}", self.t.range(1, 9));
                let (p, q) = *self.t.pick(&[("", " = 1"), ("", " = 1"), ("vx = ", " = 1"), ("[1, ", " = 1]"), ("if 1; ", " += 1; end"), ("vx, ", " = 1"), ("", " ||= 1"), ("for ", " in 1; end"), ("1 => ", ""), ("1 in [*", "]"), ("case 1; in {**", "}; end"), ("1 => {", ":}"), ("1 in {a: {\"", "\":}}"), ("begin; rescue => ", "; end")]);
                self.raw(p);
                let l = self.raw(&n);
                self.raw(q);
                self.raw(" }");
                self.bad(&format!("CantAssignToNumparam {{ numparam: {:?} }}", n), l);
            }
            // ---- blocks ----
            24 if self.t.chance(1, 4) => {
                // forwarded arguments bring a block
                self.rawp(&["def q(...); ", "def q(va, ...) ", "def self.q(va = 1, ...); va; "]);
                let (p, q) = *self.t.pick(&[("foo(", ") { }"), ("foo(1, ", ") { |x| x }"), ("a.foo(", ") { }"), ("a&.foo(va, ", ") { }"), ("super(", ") { _1 }"), ("foo.(", ") { }"), ("Foo(", ") do end"), ("A::b(*c, ", ") do |x| end")]);
                self.raw(p);
                let l = self.raw("...");
                self.raw(q);
                self.raw("; end");
                self.bad("BlockAndBlockArgGiven", l);
            }
            24 => {
                let (p, s, q) = *self.t.pick(&[("foo(", "&vb", ") { }"), ("foo(1, ", "&:a", ") do end"), ("a.foo(", "&vb", ") { |x| x }"), ("a&.foo(", "&vb", ") { }"), ("foo 1, ", "&vb", " do end"), ("super(", "&vb", ") { }"), ("a[", "&vb", "] { }"), ("Foo::Bar(", "&vb", ") { }"), ("a.foo ", "&vb", " do |x| end"), ("foo.(", "&vb", ") { }"), ("super ", "&vb", " do end")]);
                if q.contains(" do") && self.env.no_do > 0 {
                    return self.bad_simple();
                }
                self.raw(p);
                let l = self.raw(s);
                self.raw(q);
                self.bad("BlockAndBlockArgGiven", l);
            }
            25 if self.env.in_def => {
                let l = self.raw("yield");
                if self.env.no_do == 0 && self.t.chance(1, 3) {
                    self.rawp(&[" 1 do end", " va do |vb| vb end", " 1, 2 do 3 end", " *va do end"]);
                } else {
                    self.rawp(&["(&va)", " &va", "(1, &va)", " 1, &va"]);
                }
                self.bad("BlockGivenToYield", l);
            }
            26 => {
                let w: &[(&str, &str)] = &[("def q(&); def foo; ", "; end; end"), ("def q(vq, &); class << self; ", "; end; end"), ("def q(*, **); ", "; end"), ("def self.q(&vq); ", "; end"), ("def q(&); def foo(vq) = ", "; end"), ("def q(&) foo { def foo(*) ", "; end } end")];
                let (o, c) = if self.env.fwd_block || self.t.chance(1, 3) { *self.t.pick(w) } else { *self.t.pick(&[("", ""), ("", ""), ("begin; def q(&); end; ", "; end")]) };
                self.raw(o);
                let (p, q) = *self.t.pick(&[("foo(", ")"), ("foo(1, ", ")"), ("a.foo(", ")"), ("super(", ")")]);
                self.raw(p);
                let l = self.raw("&");
                self.raw(q);
                self.bad("NoAnonymousBlockarg", l);
                self.raw(c);
            }
            27 => {
                let w: &[(&str, &str)] = &[("def q(...); def foo; ", "; end; end"), ("def q(vq, ...); class << self; ", "; end; end"), ("def q(*, **, &); ", "; end"), ("def self.q(*vq); ", "; end"), ("def q(...); def foo(vq) = ", "; end"), ("def q(...) foo { def foo(*) ", "; end } end")];
                let (o, c) = if self.env.fwd_all || self.t.chance(1, 3) { *self.t.pick(w) } else { *self.t.pick(&[("", ""), ("", ""), ("begin; def q(...); end; ", "; end")]) };
                self.raw(o);
                let (p, q) = *self.t.pick(&[("foo(", ")"), ("foo(1, ", ")"), ("a.foo(", ")"), ("->(", ") {}"), ("->(vq, ", ") {}"), ("->( ", ") { 1 }"), ("foo { |", "| }"), ("foo { |vq, ", "| 1 }")]);
                self.raw(p);
                let l = self.raw("...");
                self.raw(q);
                self.bad(&format!("UnexpectedToken {{ token_name: {:?} }}", if p.starts_with('-') { "tDOT3" } else { "tBDOT3" }), l);
                self.raw(c);
            }
            // ---- definitions ----
            28 if self.env.in_def => {
                let (k, m) = *self.t.pick(&[("class", "ClassDefinitionInMethodBody"), ("module", "ModuleDefinitionInMethodBody")]);
                let l = self.raw(k);
                self.rawp(&[" Foo; end", " Foo::Bar; 1; end", " ::Foo; end"]);
                self.bad(m, l);
            }
            29 if !self.env.in_def => {
                self.rawp(&["class Foo; ", "module Foo; ", "class Foo < Bar; va = 1; "]);
                if self.t.chance(1, 3) {
                    self.raw("if va; ");
                    let l = self.raw("return");
                    self.bad("InvalidReturnInClassOrModuleBody", l);
                    self.raw("; end; end");
                } else {
                    let l = self.raw("return");
                    self.bad("InvalidReturnInClassOrModuleBody", l);
                    self.raw("; end");
                }
            }
            30 => {
                self.rawp(&["class ", "module "]);
                let l = self.rawp(&["foo", "été", "日本"]);
                self.bad("ClassOrModuleNameMustBeConstant", l);
                self.raw("; end");
            }
            31 => {
                self.raw("begin; 1; ");
                let b = self.pos();
                self.raw("else");
                let e = self.raw("; 2; ");
                let _ = e;
                self.bad_within("ElseWithoutRescue", (b, b + 4));
                self.raw("end");
            }
            32 => {
                self.rawp(&["begin; ", "if 1; ", "foo(("]);
                let close = if self.out.ends_with(b"((") { "))" } else { "; end" };
                let l = self.raw("BEGIN");
                self.raw(" { 1 }");
                self.raw(close);
                self.bad("BeginNotAtTopLevel", l);
            }
            33 => {
                self.raw("alias $va ");
                let l = self.rawp(&["$1", "$22"]);
                self.bad("AliasNthRef", l);
            }
            34 => {
                let (p, q) = *self.t.pick(&[("va", "vb, vc = 1, 2"), ("@a", "vb, vc = foo"), ("vc, foo", "vb = 1, 2"), ("*foo", "vb, vc = 1"), ("(va", "vb, vd), vc = 1"), ("va", "B, vc = 1, 2")]);
                self.raw(p);
                let l = self.raw("&.");
                self.raw(q);
                self.bad("CsendInsideMasgn", l);
            }
            // ---- patterns ----
            35 | 36 => self.bad_pattern(),
            // ---- tokens that cannot stand here ----
            37 | 38 => {
                let (s, k) = *self.t.pick(&[(")", "tRPAREN"), ("]", "tRBRACK"), ("=>", "tASSOC"), (",", "tCOMMA"), ("=", "tEQL"), ("==", "tEQ"), ("&&", "tANDOP"), ("|", "tPIPE"), ("<", "tLT"), (">=", "tGEQ"), ("=~", "tMATCH"), ("+=", "tOP_ASGN"), (".", "tDOT"), ("&.", "tANDDOT"), ("^", "tCARET"), ("<=>", "tCMP"), (">>", "tRSHFT"), ("!=", "tNEQ")]);
                self.raw("begin; ");
                let l = self.raw(s);
                self.raw(" 1; end");
                self.bad(&format!("UnexpectedToken {{ token_name: {:?} }}", k), l);
            }
            39 | 40 => {
                let (s, k) = *self.t.pick(&[("then", "kTHEN"), ("do", "kDO"), ("when 1", "kWHEN"), ("in 1", "kIN"), ("elsif 1", "kELSIF"), ("and 1", "kAND"), ("or 1", "kOR"), (")", "tRPAREN"), ("]", "tRBRACK"), ("}", "")]);
                self.raw("begin; 1; ");
                let b = self.pos();
                self.raw(s);
                let n = s.split(' ').next().unwrap().len();
                self.raw("; end");
                if s == "}" {
                    self.bad("UnexpectedToken { token_name: \"tRCURLY\" }|UnexpectedToken { token_name: \"tSTRING_DEND\" }", (b, b + 1));
                } else if s == "do" {
                    self.bad_within("UnexpectedToken", (b, b + n));
                } else {
                    self.bad(&format!("UnexpectedToken {{ token_name: {:?} }}", k), (b, b + n));
                }
            }
            41 | 42 => {
                // two operands with nothing between, an operator without operand, a mixed pair of brackets
                let (p, s, q, k) = *self.t.pick(&[("1 ", "2", "", "tINTEGER"), ("1 ", "va", "", "tIDENTIFIER"), ("@a ", "@b", "", "tIVAR"), ("(1", "]", ")", "tRBRACK"), ("[1", ")", "]", "tRPAREN"), ("foo(1", "}", ")", "}"), ("{a: 1", "]", "}", "tRBRACK"), ("(1 +", ")", "", "tRPAREN"), ("[1, *", "]", "", "tRBRACK"), ("vx = (1 *", ")", "", "tRPAREN"), ("foo(1,", ",", "2)", "tCOMMA"), ("[", ",", "1]", "tCOMMA"), ("foo(a: 1, ", "a:", " 2; 3)", ""), ("1 == 2 ", "==", " 3", "tEQ"), ("1..2", "..", "3", "tDOT2"), ("1 <=> 2 ", "!=", " 3", "tNEQ"), ("1 =~ 2 ", "===", " 3", "tEQQ"), ("1 ? 2 ", "}", "", "}"), ("(1 ? 2", ")", "", "tRPAREN"), ("if 1 then 2 ", ")", " end", "tRPAREN"), ("def foo(1", "", "); end", ""), ("foo(&va", ",", " 1)", "tCOMMA"), ("foo(**va, ", "*vb", ")", ""), ("undef ", "1", "", "tINTEGER"), ("alias va ", "$b", "", "tGVAR"), ("alias $a ", "vb", "", "tIDENTIFIER"), ("for 1 in 2; ", "", "end", ""), ("->(va, ", ")", " {}", "tRPAREN"), ("def foo(va, ", ")", "; end", "tRPAREN"), ("nil ", "nil", "", "kNIL"), ("\"a\" ", "1", "", "tINTEGER"), ("va::", "@b", "", "tIVAR"), ("not", "; 1", "", "")]);
                if k.is_empty() {
                    return self.bad_simple();
                }
                self.raw(p);
                let l = self.raw(s);
                self.raw(q);
                if k == "}" {
                    self.bad("UnexpectedToken { token_name: \"tRCURLY\" }|UnexpectedToken { token_name: \"tSTRING_DEND\" }", l);
                } else {
                    self.bad(&format!("UnexpectedToken {{ token_name: {:?} }}", k), l);
                }
            }
            43 => {
                let (p, s, q, m) = *self.t.pick(&[("foo(", "a?", ":)", "a?"), ("{", "été!", ":}", "été!"), ("{b: 1, ", "b?", ":, c: 1}", "b?"), ("foo(1, ", "c!", ":)", "c!")]);
                self.raw(p);
                let l = self.raw(s);
                self.raw(q);
                self.bad(&format!("InvalidIdToGet {{ identifier: {:?} }}", m), l);
            }
            44 => {
                let (p, s, q) = *self.t.pick(&[("vx = ", ":\"\\xff\"", ""), ("foo(", ":\"a\\xC3\\x28\"", ")"), ("[", "%I(\\xff)", "]"), ("{", "\"\\xff\":", " 1}"), ("foo ", "\"a\\x80\":", " 1"), ("", "%I(a \\xfe)", ""), ("", ":\"\\u3042\\xff\"", "")]);
                self.raw(p);
                let l = self.raw(s);
                self.raw(q);
                self.bad_within("InvalidSymbol { symbol: \"UTF-8\" }", l);
            }
            45 => {
                // a backslash that continues no line, a `?` with nothing to name
                let (p, s, q, k) = *self.t.pick(&[("vx = ", "\\", "+ 1", "tBACKSLASH"), ("[1", "\\", ", 2]", "tBACKSLASH"), ("foo ", "\\", "n", "tBACKSLASH"), ("foo(1 ", "\\", "\\)", "tBACKSLASH"), ("vx = 1 ", "\\ ", "+ 1", "tSP"), ("foo ", "\\\t", "1", "tSLASH_T"), ("@a ", "\\\x0c", "+ 1", "tSLASH_F"), ("foo(", "\\\x0b", "1)", "tVTAB"), ("foo(", "\\\r", "1)", "tSLASH_R"), ("vx = ", "?", " 1", "tEH"), ("[", "?", "\t]", "tEH"), ("foo(1, ", "?", " )", "tEH"), ("1 + ", "?", "\x0b1", "tEH"), ("vx = ", "?", "\x0c", "tEH"), ("vx = ", "\\", "é", "tBACKSLASH")]);
                self.raw(p);
                let l = self.raw(s);
                self.raw(q);
                self.bad(&format!("UnexpectedToken {{ token_name: {:?} }}", k), l);
            }
            46 => {
                let (p, q) = *self.t.pick(&[("def ", "; end"), ("def ", "(va) = 1"), ("def self.", "; 1; end"), ("def self.", " = 1"), ("def ", "() = foo 1"), ("def Foo.", "(va) va end"), ("def @a.", "() = va rescue 1")]);
                self.raw(p);
                let n = format!("_{}", self.t.range(1, 9));
                let l = self.raw(&n);
                self.raw(q);
                self.bad(&format!("ReservedForNumparam {{ numparam: {:?} }}", n), l);
            }
            47 if !self.pending() && self.no_nl == 0 => {
                // a line cannot begin with these
                let (p, s, q, k) = *self.t.pick(&[("1\n", "&", "va", "tAMPER"), ("va\n  ", "&&", " 1", "tANDOP"), ("foo\n\t", "&", " 1", "tAMPER"), ("foo(1)\n", "==", " 2", "tEQ"), ("va = 1\n ", "<", "2", "tLT"), ("1\n# x\n", "&", "va", "tAMPER"), ("foo\n", "and", " 1", "kAND"), ("1\n\n", "&.", "va", "")]);
                if k.is_empty() {
                    return self.bad_simple();
                }
                self.raw("begin; ");
                self.raw(p);
                let l = self.raw(s);
                self.raw(q);
                self.raw("; end");
                self.bad(&format!("UnexpectedToken {{ token_name: {:?} }}", k), l);
            }
            _ => self.bad_simple(),
        }
    }

    fn bad_simple(&mut self) {
        self.raw("begin; ");
        let l = self.raw(")");
        self.raw(" end");
        self.bad("UnexpectedToken { token_name: \"tRPAREN\" }", l);
    }
    /// A target that cannot be assigned, in every kind of assignment.
    fn bad_target(&mut self, n: &str, m: &str) {
        let (p, q) = *self.t.pick(&[("", " = 1"), ("", " = foo 1"), ("", " = 1, 2"), ("va = ", " = 1"), ("", ", vb = 1, 2"), ("va, ", " = 1, 2"), ("va, (", ", vb), vc = 1"), ("*", ", va = 1"), ("va, *", " = 1"), ("", " += 1"), ("", " ||= 1"), ("", " &&= foo 1"), ("for ", " in 1; end"), ("for va, ", " in 1; end"), ("begin; rescue => ", "; end"), ("foo(", " = 1)"), ("va, vb, ", " = 1"), ("(", ", va), vb = 1"), ("va, *vb, ", " = 1"), ("va if ", " = 1"), ("", " = va rescue 2"), ("va, (vb, *", "), vc = 1")]);
        // an operator assignment to a scoped constant is fine in a method
        let (p, q) = if n.contains("::") && q.contains("= ") && !q.starts_with(" = ") { ("", " = 1") } else { (p, q) };
        self.raw(p);
        let l = self.raw(n);
        self.raw(q);
        self.bad(m, l);
    }

    fn param_context(&mut self) -> (&'static str, &'static str) {
        *self.t.pick(&[("def foo(", "); end"), ("def self.foo(", ") = 1"), ("def foo ", "; end"), ("-> (", ") { }"), ("-> ", " { }"), ("foo { |", "| }"), ("foo { |", "| 1 }")])
    }

    /// The same name twice in one parameter list.
    fn bad_dup_param(&mut self) {
        let n = self.new_var();
        let (o, c) = self.param_context();
        let block = c.starts_with('|');
        // forms in the order in which they may stand: text with the name as %
        const FORMS: &[&str] = &["%", "(%, vz)", "(vy, *%)", "% = 1", "*%", "%:", "%: 1", "**%", "&%"];
        let mut i = self.t.draw(FORMS.len());
        let mut j = self.t.draw(FORMS.len());
        if i > j {
            std::mem::swap(&mut i, &mut j);
        }
        let lambda_bare = o == "-> " || o == "def foo ";
        let single = |k: usize| matches!(k, 4 | 7 | 8);
        if i == j && (single(i) || i == 1 || i == 2) || (i == 1 && j == 2) || block && (i == 3 || j == 3) || lambda_bare && (i == 5 || i == 1 || i == 2) {
            i = 0;
            j = 0;
        }
        let shadow = (block || o == "-> (") && self.t.chance(1, 6);
        self.raw(o);
        if self.t.chance(1, 3) {
            self.raw("vw, ");
        }
        let mut put = |g: &mut Self, f: &str| {
            let (p, q) = f.split_once('%').unwrap();
            g.raw(p);
            let l = g.raw(n);
            g.raw(q);
            l
        };
        put(self, FORMS[i]);
        let l;
        if shadow {
            self.raw("; ");
            l = put(self, "%");
        } else {
            self.raw(", ");
            l = put(self, FORMS[j]);
        }
        self.bad("DuplicatedArgumentName", l);
        self.raw(c);
    }

    fn bad_pattern(&mut self) {
        let (p, q) = *self.t.pick(&[("case 1; in ", "; 2; end"), ("case 1; in 3; 4; in ", " then 2; end"), ("1 => ", ""), ("1 in ", "")]);
        let n = self.new_var();
        self.raw(p);
        match self.t.draw(7) {
            0 => {
                let (a, b, c) = *self.t.pick(&[("[", ", ", "]"), ("[", ", *", "]"), ("{a: ", ", b: ", "}"), ("[[", "], ", "]"), ("[1 => ", ", ", "]"), ("Foo(", ", ", ")"), ("[*", ", 1, ", "]"), ("{a: ", ", **", "}"), ("[Integer => ", ", [", "]]"), ("[*, ", ", *", "]"), ("[", ", {", ":}]"), ("[", ", {\"", "\":}]"), ("{a: ", ", \"", "\":}"), ("{", ":, a: ", "}"), ("{\"", "\":, a: ", "}"), ("{\"", "\":, a: {b: [1 => ", "]}}"), ("{", ":, **", "}"), ("Foo[", ", b: {", ":}]"), ("[", ", 1 => ", "]"), ("[", ", *, *", "]")]);
                let (a, b, c) = if b.ends_with("*, *") || b.contains("b: {") { ("[", ", 1 => ", "]") } else { (a, b, c) };
                self.raw(a);
                self.raw(n);
                self.raw(b);
                let l = self.raw(n);
                self.raw(c);
                self.bad("DuplicateVariableName", l);
            }
            1 => {
                let (a, s, c) = *self.t.pick(&[("{a: 1, ", "a:", " 2}"), ("{a: 1, b: 2, ", "a:", " [3]}"), ("{\"a\": 1, ", "a:", " 2}"), ("{a: 1, ", "\"a\":", " 2}"), ("Foo(k: 1, ", "k:", " 2)"), ("{a: {b: 1}, ", "a:", " 2}"), ("{a: 1, ", "a:", "}"), ("{a:, ", "a:", " 1}"), ("{a:, ", "a:", "}"), ("{_a:, ", "_a:", "}"), ("{\"a\":, ", "a:", " 2}"), ("{a: 1, ", "\"a\":", "}"), ("{a:, b:, ", "\"a\":", "}"), ("Foo(k: Foo(k:), ", "k:", ")"), ("[{a:, **nil}, {b: 1, c: 2, ", "b:", " 2}]"), ("{b: 1} | {b: 1, ", "b:", " 1}")]);
                self.raw(a);
                let l = self.raw(s);
                self.raw(c);
                self.bad_within("DuplicateKeyName", l);
            }
            2 => {
                let v = *self.t.pick(&["undeclared_1", "été9", "zzz"]);
                let (a, c) = *self.t.pick(&[("", ""), ("[", "]"), ("{a: ", "}"), ("1 | ", ""), ("Foo[", "]")]);
                self.raw(a);
                self.raw("^");
                let l = self.raw(v);
                self.raw(c);
                self.bad(&format!("NoSuchLocalVariable {{ var_name: {:?} }}", v), l);
            }
            3 => {
                let b = self.pos();
                let (a, s, c) = *self.t.pick(&[("{", "\"a#{1}\":", "}"), ("{", "\"#{va}\":", " 1}"), ("{b: 1, ", "\"a#{1}b\":", " 2}")]);
                let _ = b;
                self.raw(a);
                let l = self.raw(s);
                self.raw(c);
                self.bad("SymbolLiteralWithInterpolation", l);
            }
            4 => {
                self.raw("{");
                let s = *self.t.pick(&["A:", "É:", "Ωa:", "\"É\":", "\"a b\":", "\"a?\":", "\"aé!\":", "\"@a\":", "\"1\":", "\"A\":", "\"a-\":", "\"\\u{}\":"]);
                let l = self.raw(s);
                self.raw("}");
                self.bad_within("KeyMustBeValidAsLocalVariable", l);
            }
            5 => {
                let m = format!("_{}", self.t.range(1, 9));
                let in_block = self.env.scopes.last().map_or(false, |s| s.dynamic);
                let (a, c) = *self.t.pick(&[("[", "]"), ("", ""), ("1 => ", ""), ("{a: ", "}"), ("[*", "]"), ("[1, *", ", 2]"), ("{**", "}"), ("{a:, **", "}"), ("{", ":}"), ("{\"", "\":}"), ("Foo(", ":)"), ("[*, 1, *", "]")]);
                if in_block || self.is_declared(&m) {
                    self.raw("[va, ^");
                    let l = self.raw("zzz9");
                    self.raw("]");
                    self.bad("NoSuchLocalVariable { var_name: \"zzz9\" }", l);
                    self.raw(q);
                    return;
                }
                self.raw(a);
                let l = self.raw(&m);
                self.raw(c);
                self.bad(&format!("ReservedForNumparam {{ numparam: {:?} }}", m), l);
            }
            _ => {
                let (a, s, c, k) = *self.t.pick(&[("[1", ")", "]", "tRPAREN"), ("{a: 1", "]", "}", "tRBRACK"), ("[1 ", "2", "]", "tINTEGER"), ("Foo(1", "]", ")", "tRBRACK"), ("{**nil", ",", " a: 1}", "tCOMMA"), ("1 | ", "|", " 2", "tPIPE"), ("{**va", ",", " b:}", "tCOMMA")]);
                self.raw(a);
                let l = self.raw(s);
                self.raw(c);
                self.bad_within(&format!("UnexpectedToken {{ token_name: {:?} }}", k), l);
            }
        }
        self.raw(q);
    }

    /// A program with one ill-formed construct.
    pub fn bad_program(mut self) -> (Program, Option<Bad>) {
        self.bad_left = true;
        self.top_stmts();
        if self.bad.is_none() && !self.nl_skipped() {
            self.bad_left = false;
            self.term();
            self.bad_stmt();
        }
        let bad = self.bad.clone();
        if !self.pending() && self.t.chance(1, 2) {
            self.newline_chars();
        }
        (self.finish(None), bad)
    }
}
