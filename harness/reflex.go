package main

// A lexer for Kuneiform written from the language definition, independent of
// the generated one: longest match first, then the earlier rule.

type rtok struct {
	kind string // symbol or keyword itself, or ID INDEX VAR AT NUM STR SQL
	text string
	pos  int // in runes
}

func isLetter(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isDigit(r rune) bool  { return r >= '0' && r <= '9' }
func isIDRune(r rune) bool { return isLetter(r) || isDigit(r) || r == '_' }
func isWS(r rune) bool     { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

func lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

// refLex returns the visible tokens up to the first character where no token
// can be read, and the position of that character or -1.
func refLex(src string) ([]rtok, int) { return refLexRunes([]rune(src)) }

func idEnd(s []rune, i int) int { // end of the identifier at i, or i
	if i >= len(s) || !isLetter(s[i]) {
		return i
	}
	j := i + 1
	for j < len(s) && isIDRune(s[j]) {
		j++
	}
	return j
}

func kwAt(s []rune, i int) int { // end of an SQL keyword at i, or 0
	for _, k := range kwCI {
		if len(s)-i >= len(k) {
			ok := true
			for j := 0; j < len(k); j++ {
				if lower(s[i+j]) != rune(k[j]) {
					ok = false
					break
				}
			}
			if ok {
				return i + len(k)
			}
		}
	}
	return 0
}

func refLexRunes(s []rune) (out []rtok, bad int) {
	i := 0
	for i < len(s) {
		r := s[i]
		if isWS(r) {
			i++
			continue
		}
		add := func(kind string, j int) {
			out = append(out, rtok{kind, string(s[i:j]), i})
			i = j
		}
		at := func(k int) rune {
			if i+k < len(s) {
				return s[i+k]
			}
			return -1
		}
		switch {
		case isLetter(r):
			if e := kwAt(s, i); e > 0 && e < len(s) && isWS(s[e]) {
				// statement: keyword, white space, then anything up to ; or }
				j := e
				for j < len(s) && s[j] != ';' && s[j] != '}' {
					j++
				}
				if j >= e+2 {
					add("SQL", j)
					continue
				}
			}
			j := idEnd(s, i)
			w := string(s[i:j])
			if isKw[w] || isKwCI(w) {
				if isKwCI(w) {
					add("sqlkw", j)
				} else {
					add(w, j)
				}
			} else {
				add("ID", j)
			}
		case isDigit(r):
			j := i
			for j < len(s) && isDigit(s[j]) {
				j++
			}
			add("NUM", j)
		case r == '#' || r == '$' || r == '@':
			j := idEnd(s, i+1)
			if j == i+1 {
				add(string(r), i+1)
			} else {
				add(map[rune]string{'#': "INDEX", '$': "VAR", '@': "AT"}[r], j)
			}
		case r == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' && s[j] != '\n' && s[j] != '\r' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) || s[j] != '\'' {
				return out, i
			}
			add("STR", j+1)
		case r == '/' && at(1) == '*':
			j := i + 2
			for j+1 < len(s) && !(s[j] == '*' && s[j+1] == '/') {
				j++
			}
			if j+1 < len(s) {
				i = j + 2
			} else {
				add("/", i+1)
			}
		case r == '/' && at(1) == '/':
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case r == '|' && at(1) == '|', r == '<' && at(1) == '<', r == '>' && at(1) == '>', r == '=' && at(1) == '=',
			r == '<' && at(1) == '=', r == '>' && at(1) == '=', r == '!' && at(1) == '=', r == '<' && at(1) == '>':
			add(string(s[i:i+2]), i+2)
		default:
			switch r {
			case ':', ';', '(', '{', ')', '}', ',', '.', '=', '+', '-', '*', '/', '%', '~', '&', '|', '<', '>':
				add(string(r), i+1)
			default:
				return out, i
			}
		}
	}
	return out, -1
}
