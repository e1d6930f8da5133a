// Package mathclass stands in for github.com/mewmew/mathclass, which cannot be
// fetched here. Its tables classify the characters the generated documents
// use, and their neighbours, the way Unicode's MathClass.txt does, but they are
// not that file: what the checks say about math mode is said for these tables.
// As in the real package no character has two classes.
package mathclass

import "unicode"

// table makes a table of inclusive ranges, given in pairs.
func table(pairs ...rune) *unicode.RangeTable {
	t := &unicode.RangeTable{}
	for i := 0; i+1 < len(pairs); i += 2 {
		lo, hi := pairs[i], pairs[i+1]
		if hi <= 0xffff {
			t.R16 = append(t.R16, unicode.Range16{Lo: uint16(lo), Hi: uint16(hi), Stride: 1})
			if hi <= 0xff {
				t.LatinOffset++
			}
		} else {
			t.R32 = append(t.R32, unicode.Range32{Lo: uint32(lo), Hi: uint32(hi), Stride: 1})
		}
	}
	return t
}

var (
	Normal = table('#', '%', '.', '.', '0', '9', '?', '@', '\\', '\\', '§', '§', '¶', '¶', '′', '‴', '∂', '∂',
		'∅', '∅', '∞', '∠', '⊤', '⊤', '■', '□', '◦', '◦')
	Alphabetic = table('A', 'Z', 'a', 'z', 'À', 'Ö', 'Ø', 'ö', 'ø', 'ÿ', 'Α', 'Ω', 'α', 'ω', 'ℂ', 'ℂ', 'ℕ', 'ℕ',
		'ℙ', 'ℝ', 'ℤ', 'ℤ', 'ℵ', 'ℸ', 0x1d400, 0x1d7ff)
	Binary = table('&', '&', '*', '*', '·', '·', '×', '×', '÷', '÷', '∔', '∔', '∖', '∙', '∧', '∪', '⊓', '⊔',
		'⊕', '⊡', '⋄', '⋇')
	Closing     = table(')', ')', ']', ']', '}', '}', '⌉', '⌉', '⌋', '⌋', '⟧', '⟧', '⟩', '⟩', '⟫', '⟫')
	Diacritic   = table('^', '^', '`', '`', '¨', '¨', '¯', '¯', '´', '´', '¸', '¸', 0x0300, 0x036f, 0x20d0, 0x20ff)
	Fence       = table('|', '|', '‖', '‖', '⦀', '⦀')
	Glyph_Part  = table('⎛', '⎭')
	Large       = table('∏', '∑', '∫', '∳', '⋀', '⋃', '⨀', '⨆')
	Opening     = table('(', '(', '[', '[', '{', '{', '⌈', '⌈', '⌊', '⌊', '⟦', '⟦', '⟨', '⟨', '⟪', '⟪')
	Punctuation = table(',', ',', ';', ';')
	Relation    = table(':', ':', '<', '>', '~', '~', '←', '⇿', '∈', '∍', '∝', '∝', '∣', '∦', '∴', '∾', '≁', '⊋', '⊢', '⊣')
	Space       = table(' ', ' ', 0xa0, 0xa0, 0x2000, 0x200a)
	Unary       = table('!', '!', '¬', '¬', '∀', '∀', '∁', '∁', '√', '∜')
	Vary        = table('+', '+', '-', '-', '/', '/', '±', '±', '−', '∓')
	Special     = table('"', '"', '\'', '\'', '_', '_')
)
