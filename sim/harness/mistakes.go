package main

import (
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// Documents with mistakes: well-formed but for some constructs of which it is
// known what the Typst grammar has to say about them: where, what, and with
// which hints.

// markMessage is a mark that names what is wrong with the construct just
// opened, an error.
const markMessage = markClose + 1

var messages []string

func wrong(s, message string, hints ...string) string {
	m := strings.Join(append([]string{message}, hints...), "\x00")
	i := 0
	for i < len(messages) && messages[i] != m {
		i++
	}
	if i == len(messages) {
		messages = append(messages, m)
	}
	return string(rune(markOpen+int(syntax.SyntaxKindError))) + string(rune(markMessage+i)) + s + string(rune(markClose))
}

// missing is an error where something is not.
func missing(what string, hints ...string) string { return wrong("", "expected "+what, hints...) }

// withMistakes generates a document with some.
func withMistakes() (string, []construct) {
	for {
		messages = nil
		var b strings.Builder
		for i := gi(3); i >= 0; i-- {
			if gi(2) == 0 {
				b.WriteString(wfMarkup(gi(3)))
			}
			b.WriteString(mkMarkup(2) + gpick("\n\n", "\n\n", "\n \n\n", "\r\n\r\n"))
		}
		if gi(3) == 0 {
			b.WriteString(wfMarkup(gi(3)))
		}
		if gi(6) == 0 {
			b.WriteString(mkLast())
		}
		s, marks := unmark(b.String())
		if len(s) < 4000 {
			return s, marks
		}
	}
}

// mkMarkup is a paragraph or the like with a mistake; what follows is a
// paragraph of its own.
func mkMarkup(d int) string {
	if d > 0 {
		switch gi(12) {
		case 0:
			return "#" + tg(syntax.SyntaxKindContentBlock, "["+gpick("", "\n", wfWord()+"\n\n")+mkMarkup(d-1)+"\n\n]")
		case 1:
			return tg(syntax.SyntaxKindListItem, "- "+wfWord()+" "+mkInline())
		case 2:
			return tg(syntax.SyntaxKindHeading, "= "+mkInline())
		case 3:
			return "#" + tg(syntax.SyntaxKindFuncCall, "f"+tg(syntax.SyntaxKindArgs, tg(syntax.SyntaxKindContentBlock, "["+mkMarkup(d-1)+"\n\n]")))
		case 4:
			return "#" + tg(syntax.SyntaxKindConditional, "if x "+tg(syntax.SyntaxKindContentBlock, "["+mkMarkup(d-1)+"\n\n]"))
		}
	}
	switch gi(12) {
	case 0:
		return tg(syntax.SyntaxKindStrong, wrong("*", "unclosed delimiter")+wfWord()+gpick("", " b", "\nc", " "+tg(syntax.SyntaxKindEmph, "_d_")))
	case 1:
		return tg(syntax.SyntaxKindEmph, wrong("_", "unclosed delimiter")+wfWord()+gpick("", " b", "\nc", " "+tg(syntax.SyntaxKindStrong, "*d*")))
	case 2:
		return tg(syntax.SyntaxKindTermItem, "/ "+wfWord()+missing("colon"))
	case 3, 4, 5, 6:
		return "#" + mkStatement()
	case 7, 8:
		return "#" + tg(syntax.SyntaxKindCodeBlock, "{"+gpick(" ", "\n")+gpick("", wfCode(1))+mkCode()+"\n"+wfCode(1)+"}")
	case 9:
		return "#" + mkUnclosed()
	default:
		return wfWord() + " " + mkInline() + gpick("", " "+wfWord())
	}
}

// mkInline is part of a line.
func mkInline() string {
	switch gi(13) {
	case 0:
		return wrong("*/", "unexpected end of block comment", "consider escaping the `*` with a backslash or opening the block comment with `/*`")
	case 1:
		hex := gpick("110000", "d800", "ffffffff", "123456789abc", "", "xyz", "1g")
		return wrong("\\u{"+hex+"}", "invalid Unicode codepoint: "+hex)
	case 2:
		return wrong("\\u{"+gpick("12", "", "ab"), "unclosed Unicode escape sequence")
	case 3:
		return wrong("<"+gpick("abc", "é", "a:b"), "unclosed label")
	case 4:
		return wrong(gpick("https://a.b/(c", "http://a.b/[c", "https://a.b/(c)[", "http://a.b/((c)"), "automatic links cannot contain unbalanced brackets, use the `link` function instead")
	case 5:
		return "#" + missing("expression") + " " + wfWord()
	case 6, 7, 8:
		return tg(syntax.SyntaxKindEquation, "$"+gpick("", " ")+gpick("", "a ", wfMath(1)+" ")+mkMath()+gpick("", " ")+"$")
	case 9:
		return "#" + gpick(wrong("1x", "invalid number suffix: x"), wrong("1e", "invalid floating point number: 1e"), wrong("2E-", "invalid floating point number: 2E-"), wrong("1.5e+", "invalid floating point number: 1.5e+")+gpick("-5", "+ 1", "-"))
	case 10, 11:
		return "#" + mkCall() + gpick("", ";")
	default:
		return "#" + mkParens() + gpick("", ";")
	}
}

// mkUnclosed is code that a bracket cuts off.
func mkUnclosed() string {
	u := "unclosed delimiter"
	s := gpick(
		"#"+tg(syntax.SyntaxKindFuncCall, "f"+tg(syntax.SyntaxKindArgs, wrong("(", u)+wfAtom(1))),
		"#"+tg(syntax.SyntaxKindFuncCall, "f"+tg(syntax.SyntaxKindArgs, wrong("(", u)+"x, "+tg(syntax.SyntaxKindNamed, "k: "+wfAtom(1)))),
		"#"+tg(syntax.SyntaxKindParenthesized, wrong("(", u)+wfAtom(1)),
		"#"+tg(syntax.SyntaxKindArray, wrong("(", u)+wfAtom(1)+", "+wfAtom(1)),
		"#"+tg(syntax.SyntaxKindDict, wrong("(", u)+tg(syntax.SyntaxKindNamed, "k: "+wfAtom(1))),
		"#"+tg(syntax.SyntaxKindCodeBlock, wrong("{", u)+" "+wfAtom(1)),
		"#"+tg(syntax.SyntaxKindCodeBlock, wrong("{", u)+"\n"+tg(syntax.SyntaxKindLetBinding, "let x = "+wfAtom(1))),
		"#"+tg(syntax.SyntaxKindLetBinding, "let "+tg(syntax.SyntaxKindDestructuring, wrong("(", u)+"a, b")+missing("equals sign")),
		"#"+tg(syntax.SyntaxKindLetBinding, "let "+tg(syntax.SyntaxKindClosure, "f"+tg(syntax.SyntaxKindParams, wrong("(", u)+"a, b")+missing("equals sign"))),
		tg(syntax.SyntaxKindStrong, wrong("*", u)+"foo"),
		tg(syntax.SyntaxKindEmph, wrong("_", u)+"foo"),
	)
	return tg(syntax.SyntaxKindContentBlock, "["+gpick("", "a ")+s+"]")
}

// mkLast is a mistake that takes all that follows.
func mkLast() string {
	u := "unclosed delimiter"
	return gpick(
		tg(syntax.SyntaxKindEquation, wrong("$", u)+gpick(" x", "x ] y", "x\n\n#z; a")),
		wrong("`"+gpick("abc", "a\n\nb *c", "#["), "unclosed raw text"),
		wrong("```"+gpick("abc", "a\n\nb `` c", "py #["), "unclosed raw text"),
		"#"+wrong("\""+gpick("abc", "a\n\nb", "] \\\" $"), "unclosed string"),
		"#"+tg(syntax.SyntaxKindContentBlock, wrong("[", u)+gpick("foo", "a\n\nb", "a ) } c")),
		"#"+tg(syntax.SyntaxKindCodeBlock, wrong("{", u)+gpick(" x", " x; y", "\nx\n\ny")),
		"#"+tg(syntax.SyntaxKindFuncCall, "f"+tg(syntax.SyntaxKindArgs, wrong("(", u)+gpick("x", "x, y", "x,\n\ny"))),
		"#"+tg(syntax.SyntaxKindModuleImport, "import "+tg(syntax.SyntaxKindStr, "\"a\"")+": "+wrong("(", u)+gpick("x", "x, y", "x,\n\ny")),
		tg(syntax.SyntaxKindStrong, wrong("*", u)+"foo"),
		"#"+missing("expression"),
		wrong("]", "unexpected closing bracket", "try using a backslash escape: \\]")+" x",
		"#"+tg(syntax.SyntaxKindLetBinding, "let x ="+missing("expression")),
	)
}

// mkMath is part of a formula.
func mkMath() string {
	switch gi(7) {
	case 0:
		return tg(syntax.SyntaxKindMathAttach, gpick("x", "α", wfMathIdent())+gpick("_", "^")+missing("expression"))
	case 1:
		return tg(syntax.SyntaxKindMathFrac, gpick("x", "1", wfMathIdent())+"/"+missing("expression"))
	case 2:
		return tg(syntax.SyntaxKindMathRoot, gpick("√", "∛")+missing("expression"))
	case 3:
		return tg(syntax.SyntaxKindFuncCall, wfMathIdent()+tg(syntax.SyntaxKindArgs, "("+tg(syntax.SyntaxKindNamed, "a: "+wfMathAtom())+", "+gpick("", "x, ")+tg(syntax.SyntaxKindNamed, wrong("a", "duplicate argument: a")+": "+wfMathAtom())+")"))
	case 4:
		return tg(syntax.SyntaxKindFuncCall, wfMathIdent()+tg(syntax.SyntaxKindArgs, "("+tg(syntax.SyntaxKindNamed, "a:"+missing("expression"))+gpick("", ", x")+")"))
	case 5:
		return tg(syntax.SyntaxKindFuncCall, wfMathIdent()+tg(syntax.SyntaxKindArgs, wrong("(", "unclosed delimiter")+wfMathAtom()+gpick("", ", "+wfMathAtom())))
	default:
		return tg(syntax.SyntaxKindMathAttach, "x_"+wfMathAtom()+"^"+missing("expression"))
	}
}

var keywords = []string{"if", "else", "for", "while", "set", "show", "import", "include", "return", "break", "continue", "context", "and", "or", "not", "in", "as", "let", "none", "auto"}

func useKeyword(kw string) string {
	return "keyword `" + kw + "` is not allowed as an identifier; try `" + kw + "_` instead"
}

func kwName(kw string) string {
	if kw == "and" || kw == "or" || kw == "not" {
		return "operator `" + kw + "`"
	}
	if kw == "none" || kw == "auto" {
		return "`" + kw + "`"
	}
	return "keyword `" + kw + "`"
}

// noPattern is a keyword in the place of a pattern that could be an item of a
// list.
func noPattern(kw string) string {
	switch kw {
	case "else", "and", "or", "not", "in", "as":
		// these start no expression
		return wrong(kw, "unexpected "+kwName(kw))
	}
	return wrong(kw, "expected pattern, found "+kwName(kw), useKeyword(kw))
}

// literalOf is a literal and what its kind is called.
func literalOf() (string, string) {
	all := [][2]string{{"1", "integer"}, {"1.5", "float"}, {"2pt", "numeric value"}, {"\"s\"", "string"}, {"[]", "content block"}, {"{}", "code block"}, {"$x$", "equation"}, {"<l>", "label"}, {"`r`", "raw block"}, {"true", "boolean"}, {"false", "boolean"}}
	l := all[gi(len(all))]
	return l[0], l[1]
}

// mkStatement is a statement that a hash can precede, on the rest of its line.
func mkStatement() string {
	let := func(s string) string { return tg(syntax.SyntaxKindLetBinding, s) }
	destr := func(s string) string { return tg(syntax.SyntaxKindDestructuring, s) }
	params := func(s string) string { return tg(syntax.SyntaxKindParams, s) }
	closure := func(s string) string { return tg(syntax.SyntaxKindClosure, s) }
	imp := func(s string) string {
		return tg(syntax.SyntaxKindModuleImport, "import "+tg(syntax.SyntaxKindStr, "\"a.typ\"")+s)
	}
	loop := func(s string) string { return tg(syntax.SyntaxKindForLoop, s) }
	renamed := func(s string) string { return tg(syntax.SyntaxKindRenamedImportItem, s) }
	lit, name := literalOf()
	kw := gpick(keywords...)
	expr := missing("expression")
	a := wfAtom(1)
	switch gi(24) {
	case 0:
		return let("let" + missing("pattern"))
	case 1:
		return let("let " + wfName() + gpick(" =", "=") + expr)
	case 2:
		return let("let " + wrong(lit, "expected pattern, found "+name) + " = " + a)
	case 3:
		return let("let " + wrong(kw, "expected pattern, found "+kwName(kw), useKeyword(kw)) + " = " + a)
	case 4:
		return let("let " + gpick(
			destr("(a, "+wrong("a", "duplicate binding: a")+")"),
			destr("(a, "+tg(syntax.SyntaxKindNamed, "b: "+wrong("a", "duplicate binding: a"))+")"),
			destr("(a, "+destr("(b, "+wrong("a", "duplicate binding: a")+")")+", c)"),
			destr("(a, "+tg(syntax.SyntaxKindSpread, ".."+wrong("a", "duplicate binding: a"))+")"),
			destr("("+tg(syntax.SyntaxKindSpread, "..a")+", "+wrong("..b", "only one destructuring sink is allowed")+")"),
			destr("("+tg(syntax.SyntaxKindSpread, "..")+", "+wrong("..", "only one destructuring sink is allowed")+", c)"),
			destr("("+wrong(lit, "expected pattern, found "+name)+", b)"),
			destr("(b, "+wrong("a.b", "expected pattern, found field access")+")"),
			destr("(b, "+wrong("f(x)", "expected pattern, found function call")+")"),
			destr("(b, "+noPattern(kw)+")"),
			destr("("+tg(syntax.SyntaxKindNamed, wrong("\"k\"", "expected pattern, found string")+": a")+", b)"),
			destr("(a"+missing("comma")+" b)"),
			destr("(a, "+wrong(",", "unexpected comma")+" b)"),
			destr("(a, "+misplaced()+" b)"),
		) + " = " + a)
	case 5:
		return let("let " + closure("f"+gpick(
			params("(x, "+wrong("x", "duplicate parameter: x")+")"),
			params("(x, y, "+wrong("x", "duplicate parameter: x")+")"),
			params("("+tg(syntax.SyntaxKindSpread, "..a")+", "+wrong("..b", "only one argument sink is allowed")+")"),
			params("("+tg(syntax.SyntaxKindSpread, "..")+", c, "+wrong("..", "only one argument sink is allowed")+")"),
			params("(a, "+wrong(lit, "expected pattern, found "+name)+")"),
			params("(a"+missing("comma")+" b)"),
			params("(a, "+noPattern(kw)+")"),
			params("(a, "+wrong(",", "unexpected comma")+" b)"),
			params("(a, "+misplaced()+" b)"),
			params("("+gpick("", "a, ")+misplaced()+")"),
			params("(a, "+destr("(x, "+wrong("a", "duplicate binding: a")+")")+")"),
			params("("+tg(syntax.SyntaxKindNamed, "a:"+expr)+", b)"),
		)+" = "+a))
	case 6:
		return let("let " + gpick(closure("f"+params("(x)")+missing("equals sign")), destr("(a, b)")+missing("equals sign")))
	case 7:
		return tg(syntax.SyntaxKindSetRule, "set "+gpick("f", tg(syntax.SyntaxKindFieldAccess, "f.g"))+missing("argument list"))
	case 8:
		return tg(syntax.SyntaxKindSetRule, "set f"+missing("argument list", "there may not be any spaces before the argument list")+" "+tg(syntax.SyntaxKindArgs, "("+a+")"))
	case 9:
		return tg(syntax.SyntaxKindSetRule, "set "+wrong(kw, "expected identifier, found "+kwName(kw), useKeyword(kw))+tg(syntax.SyntaxKindArgs, "("+a+")"))
	case 10:
		return tg(syntax.SyntaxKindShowRule, gpick("show"+missing("colon")+" "+wfName(), "show "+wfName()+gpick(":", " :")+expr, "show:"+expr))
	case 11:
		return tg(syntax.SyntaxKindConditional, gpick("if x"+missing("block"), "if"+expr, "if "+a+" "+tg(syntax.SyntaxKindContentBlock, "[b]")+" else"+missing("block"), "if x "+tg(syntax.SyntaxKindCodeBlock, "{}")+" else "+tg(syntax.SyntaxKindConditional, "if y"+missing("block"))))
	case 12:
		return tg(syntax.SyntaxKindWhileLoop, gpick("while x"+missing("block"), "while"+expr))
	case 13:
		return loop(gpick("for"+missing("pattern"),
			"for x"+missing("keyword `in`"),
			"for x"+missing("keyword `in`")+" "+tg(syntax.SyntaxKindContentBlock, "[a]")+missing("block"),
			"for x in"+expr,
			"for x in y"+missing("block"),
			"for x"+wrong(",", "unexpected comma", "destructuring patterns must be wrapped in parentheses")+" y in z "+wfBody(1),
			"for "+destr("(a, "+wrong("a", "duplicate binding: a")+")")+" in z "+wfBody(1),
			"for "+wrong(lit, "expected pattern, found "+name)+" in z "+wfBody(1)))
	case 14:
		return tg(syntax.SyntaxKindModuleImport, "import"+expr)
	case 15:
		return imp(gpick(
			": "+wrong("1", "unexpected integer"),
			": x, "+wrong("if", "unexpected keyword `if`"),
			": "+renamed("x as"+missing("identifier")),
			" as"+missing("identifier"),
			": x"+missing("comma")+" y",
			": x."+missing("identifier"),
			": "+renamed("x as "+wrong(kw, "expected identifier, found "+kwName(kw), useKeyword(kw))),
			" as "+wrong(kw, "expected identifier, found "+kwName(kw), useKeyword(kw))))
	case 16:
		return tg(syntax.SyntaxKindModuleInclude, "include"+expr)
	case 17:
		return tg(syntax.SyntaxKindContextual, "context"+expr)
	case 18:
		return let("let x = "+a) + missing("semicolon or line break") + " y"
	case 19, 20:
		return mkParens()
	default:
		return mkCall()
	}
}

// misplaced is a token that can start no expression.
func misplaced() string {
	t := [][2]string{{"=", "equals sign"}, {"*", "star"}, {"/", "slash"}, {":", "colon"}, {".", "dot"}, {"=>", "arrow"}, {"==", "equality operator"}, {"!=", "inequality operator"},
		{"<", "less-than operator"}, {"<=", "less-than or equal operator"}, {">", "greater-than operator"}, {">=", "greater-than or equal operator"}, {"+=", "add-assign operator"},
		{"-=", "subtract-assign operator"}, {"*=", "multiply-assign operator"}, {"/=", "divide-assign operator"}, {"and", "operator `and`"}, {"or", "operator `or`"}, {"in", "keyword `in`"}, {"as", "keyword `as`"}, {"else", "keyword `else`"}}
	k := t[gi(len(t))]
	return wrong(k[0], "unexpected "+k[1])
}

func mkCall() string {
	lit, name := literalOf()
	expr := missing("expression")
	named := func(s string) string { return tg(syntax.SyntaxKindNamed, s) }
	a := wfAtom(1)
	in := gpick(
		named("a: "+a)+", "+named(wrong("a", "duplicate argument: a")+": "+wfAtom(0)),
		named("é: "+a)+", x, "+named(wrong("é", "duplicate argument: é")+gpick(": ", ":", " : ")+wfAtom(0)),
		named(wrong(lit, "expected identifier, found "+name)+": "+a),
		named(wrong("(a)", "expected identifier, found group")+": "+a),
		a+missing("comma")+" "+wfAtom(0),
		wrong(",", "unexpected comma"),
		a+", "+wrong(",", "unexpected comma")+" "+wfAtom(0),
		named("a:"+expr),
		tg(syntax.SyntaxKindSpread, ".."+expr),
		tg(syntax.SyntaxKindBinary, "x"+gpick(" +", " and", "*", " ==", " in", " not in", " =", " +=")+expr),
		tg(syntax.SyntaxKindUnary, gpick("-", "+", "not")+expr),
		misplaced(),
		misplaced()+gpick(" ", "\n")+"x",
		"x, "+misplaced()+" x",
		wrong("1x", "invalid number suffix: x"),
		wrong("§", "the character `§` is not valid in code"),
		tg(syntax.SyntaxKindClosure, tg(syntax.SyntaxKindParams, "x")+" =>"+expr),
		"x not"+missing("keyword `in`"),
		tg(syntax.SyntaxKindFieldAccess, "x."+missing("identifier")),
	)
	f := gpick("f", tg(syntax.SyntaxKindFieldAccess, "a.f"))
	return tg(syntax.SyntaxKindFuncCall, f+tg(syntax.SyntaxKindArgs, "("+gpick("", "\n")+in+gpick("", " ", "\n")+")"+gpick("", "", tg(syntax.SyntaxKindContentBlock, "[b]"))))
}

func mkParens() string {
	lit, name := literalOf()
	expr := missing("expression")
	named := func(s string) string { return tg(syntax.SyntaxKindNamed, s) }
	keyed := func(s string) string { return tg(syntax.SyntaxKindKeyed, s) }
	dict := func(s string) string { return tg(syntax.SyntaxKindDict, "("+s+")") }
	array := func(s string) string { return tg(syntax.SyntaxKindArray, "("+s+")") }
	just := func(s string) string { return tg(syntax.SyntaxKindParenthesized, "("+s+")") }
	params := func(s string) string { return tg(syntax.SyntaxKindParams, "("+s+")") }
	a := wfAtom(1)
	switch gi(8) {
	case 0:
		return dict(named("a: "+a) + ", " + gpick("", named("b: "+wfAtom(0))+", ") + gpick(named(wrong("a", "duplicate key: a")+": "+wfAtom(0)), keyed(wrong("\"a\"", "duplicate key: a")+": "+wfAtom(0)), keyed(wrong("\"\\u{61}\"", "duplicate key: a")+": "+wfAtom(0))))
	case 1:
		return dict(gpick(keyed("\"\": "+a)+", "+keyed(wrong("\"\"", "duplicate key: ")+": "+wfAtom(0)), keyed("\"é b\": "+a)+", "+keyed(wrong("\"é b\"", "duplicate key: é b")+": "+wfAtom(0))))
	case 2:
		return dict(named("a: "+a) + ", " + gpick(wrong(lit, "expected named or keyed pair, found "+name), wrong("x", "expected named or keyed pair, found identifier"), wrong("f(x)", "expected named or keyed pair, found function call")))
	case 3:
		return array(a + ", " + gpick(wrong("k: 1", "expected expression, found named pair"), wrong("\"k\": x", "expected expression, found keyed pair")))
	case 4:
		return array(gpick(a+missing("comma")+" "+wfAtom(0), wrong(",", "unexpected comma"), a+", "+wrong(",", "unexpected comma")))
	case 5:
		return just(gpick(tg(syntax.SyntaxKindBinary, "x"+gpick(" +", " or", " <", " =")+expr), tg(syntax.SyntaxKindUnary, gpick("-", "not")+expr), tg(syntax.SyntaxKindClosure, tg(syntax.SyntaxKindParams, "x")+" =>"+expr)))
	case 6:
		return just(tg(syntax.SyntaxKindClosure, gpick(
			params("x, "+wrong("x", "duplicate parameter: x")),
			params(tg(syntax.SyntaxKindSpread, "..a")+", "+wrong("..b", "only one argument sink is allowed")),
			params("x, "+wrong(lit, "expected pattern, found "+name)),
		)+" => "+a))
	default:
		return dict(named("a:"+expr) + gpick("", ", "+named("b: "+wfAtom(0))))
	}
}

// mkCode is a statement in a block of code, on the rest of its line.
func mkCode() string {
	expr := missing("expression")
	a := wfAtom(0)
	switch gi(10) {
	case 0:
		return tg(syntax.SyntaxKindBinary, a+gpick(" +", " and", " *", " ==", " in", " not in")+expr)
	case 1:
		return tg(syntax.SyntaxKindUnary, gpick("-", "+", "not")+expr)
	case 2:
		return a + missing("semicolon or line break") + " " + gpick("y", tg(syntax.SyntaxKindStr, "\"b\""))
	case 3:
		return "x" + missing("semicolon or line break", "labels can only be applied in markup mode", "try wrapping your code in a markup block (`[ ]`)") + " " + tg(syntax.SyntaxKindLabel, "<a>")
	case 4:
		return gpick(wrong("§", "the character `§` is not valid in code"), wrong("1x", "invalid number suffix: x"), wrong("2ptx", "invalid number suffix: ptx"), wrong("0b12", "invalid binary number: 0b12"), wrong("0o8", "invalid octal number: 0o8"), wrong("0xfg", "invalid hexadecimal number: 0xfg"), wrong("1e", "invalid floating point number: 1e"), wrong("2.5E-", "invalid floating point number: 2.5E-"), wrong("0b1pt", "binary numbers cannot have a suffix", "try using a decimal number: 1pt"), wrong("0o17em", "octal numbers cannot have a suffix", "try using a decimal number: 15em"), wrong("1exy", "invalid floating point number: 1e", "invalid number suffix: xy"), wrong("0b", "invalid binary number: 0b"), "x; "+wrong("else", "unexpected keyword `else`"), wrong(",", "unexpected comma"), wrong("=>", "unexpected arrow"))
	case 5:
		return tg(syntax.SyntaxKindDestructAssignment, tg(syntax.SyntaxKindDestructuring, "(a, "+tg(syntax.SyntaxKindSpread, "..b")+", "+wrong("..c", "only one destructuring sink is allowed")+")")+" = "+a)
	case 6:
		return tg(syntax.SyntaxKindFieldAccess, "x."+missing("identifier"))
	default:
		return mkStatement()
	}
}
