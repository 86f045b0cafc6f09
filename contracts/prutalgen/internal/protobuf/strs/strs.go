package strs

func Ghost_GoSanitized(s string) string { panic("ghost") }

func Model_GoSanitized(s string) string { return Ghost_GoSanitized(s) }

func lower(c byte) bool { return 'a' <= c && c <= 'z' }

// The rule of protoc-gen-go: words start in upper case, the underscore or dot
// before a lower case letter is dropped, the underscore at the start of a part
// becomes X and every other dot an underscore.
func Spec_GoCamelCase(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		next := i+1 < len(s) && lower(s[i+1])
		first := i == 0 || s[i-1] == '.'
		if c == '.' {
			if !next {
				b = append(b, '_')
			}
		} else if c == '_' && first {
			b = append(b, 'X')
		} else if c == '_' && next {
		} else if '0' <= c && c <= '9' {
			b = append(b, c)
		} else {
			if lower(c) {
				c = c - 'a' + 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

func Opaque_GoCamelCase() {}
