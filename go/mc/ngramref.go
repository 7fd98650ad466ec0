package main

// refNgrams is an independent reference for the indexer's tokenizer. The texts
// used by the checks only contain ASCII and the characters of decomp.

type refTok struct {
	word   string
	offset int
	length int
}

// decomp: compatibility decomposition of the non-ASCII characters in use.
var decomp = map[rune]string{
	'é': "e\u0301", 'ñ': "n\u0303", 'Å': "A\u030a", 'ü': "u\u0308", 'ö': "o\u0308", '世': "世", '😀': "😀",
	'\u00a0': " ", 'ﬁ': "fi", '½': "1\u20442", 'Ⅷ': "VIII", '１': "1", '\u3000': " ", 'ß': "ß", 'λ': "λ", '\u0301': "\u0301", '\ufffd': "\ufffd", '\u2028': "\u2028", '\u0302': "\u0302", '\u0303': "\u0303", '\u0308': "\u0308", '\u030a': "\u030a", '\u2044': "\u2044", 'K': "K", '㋏': "LTD", '½' + 1: "3\u20444", 'ễ': "e\u0302\u0303",
}

func refNgrams(s string, n int) []refTok {
	var norm []rune
	for _, r := range s {
		if r < 0x80 {
			norm = append(norm, r)
		} else if d, ok := decomp[r]; ok {
			norm = append(norm, []rune(d)...)
		} else {
			panic("reference tokenizer: unknown character " + string(r))
		}
	}
	type ch struct {
		c   byte
		pos int
	}
	var out []refTok
	var word []ch
	flush := func() {
		for i := 0; i+n <= len(word); i++ {
			t := refTok{offset: word[i].pos, length: word[i+n-1].pos - word[i].pos + 1}
			for _, x := range word[i : i+n] {
				c := x.c
				if c >= 'A' && c <= 'Z' {
					c += 32
				}
				t.word += string(rune(c))
			}
			out = append(out, t)
		}
		word = nil
	}
	for i, r := range norm {
		switch {
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9':
			word = append(word, ch{byte(r), i})
		case r == ' ' || r >= 9 && r <= 13:
			flush()
		}
	}
	flush()
	return out
}
