package main

// libFuncs are the functions of the standard library that read their arguments, by
// the number of their parameters and results and by what they read.
var libFuncs = map[string]string{
	"bytes.Clone":                         "F11 f",
	"bytes.Compare":                       "F21 e",
	"bytes.Contains":                      "F21 b",
	"bytes.ContainsAny":                   "F21 b",
	"bytes.ContainsFunc":                  "F21 b",
	"bytes.ContainsRune":                  "F21 b",
	"bytes.Count":                         "F21 f",
	"bytes.Cut":                           "F23 c",
	"bytes.CutPrefix":                     "F22 p",
	"bytes.CutSuffix":                     "F22 p",
	"bytes.Equal":                         "F21 e",
	"bytes.EqualFold":                     "F21 e",
	"bytes.Fields":                        "F11 f",
	"bytes.FieldsFunc":                    "F21 f",
	"bytes.HasPrefix":                     "F21 p",
	"bytes.HasSuffix":                     "F21 p",
	"bytes.Index":                         "F21 i",
	"bytes.IndexAny":                      "F21 i",
	"bytes.IndexByte":                     "F21 i",
	"bytes.IndexFunc":                     "F21 i",
	"bytes.IndexRune":                     "F21 i",
	"bytes.Join":                          "F21 f",
	"bytes.LastIndex":                     "F21 j",
	"bytes.LastIndexAny":                  "F21 j",
	"bytes.LastIndexByte":                 "F21 j",
	"bytes.LastIndexFunc":                 "F21 j",
	"bytes.Map":                           "F21 f",
	"bytes.NewBuffer":                     "F11 f",
	"bytes.NewBufferString":               "F11 f",
	"bytes.NewReader":                     "F11 f",
	"bytes.Repeat":                        "F21 f",
	"bytes.Replace":                       "F41 f",
	"bytes.ReplaceAll":                    "F31 f",
	"bytes.Runes":                         "F11 f",
	"bytes.Split":                         "F21 f",
	"bytes.SplitAfter":                    "F21 f",
	"bytes.SplitAfterN":                   "F31 f",
	"bytes.SplitN":                        "F31 f",
	"bytes.Title":                         "F11 f",
	"bytes.ToLower":                       "F11 f",
	"bytes.ToLowerSpecial":                "F21 f",
	"bytes.ToTitle":                       "F11 f",
	"bytes.ToTitleSpecial":                "F21 f",
	"bytes.ToUpper":                       "F11 f",
	"bytes.ToUpperSpecial":                "F21 f",
	"bytes.ToValidUTF8":                   "F21 f",
	"bytes.Trim":                          "F21 t",
	"bytes.TrimFunc":                      "F21 t",
	"bytes.TrimLeft":                      "F21 t",
	"bytes.TrimLeftFunc":                  "F21 t",
	"bytes.TrimPrefix":                    "F21 p",
	"bytes.TrimRight":                     "F21 t",
	"bytes.TrimRightFunc":                 "F21 t",
	"bytes.TrimSpace":                     "F11 t",
	"bytes.TrimSuffix":                    "F21 p",
	"encoding/hex.Decode":                 "F22 r",
	"encoding/hex.DecodeString":           "F12 r",
	"encoding/hex.Dump":                   "F11 f",
	"encoding/json.Compact":               "F21 f",
	"encoding/json.Indent":                "F41 f",
	"encoding/json.MarshalIndent":         "F32 f",
	"encoding/json.Unmarshal":             "F21 f",
	"encoding/json.Valid":                 "F11 f",
	"hash/crc32.Checksum":                 "F21 f",
	"hash/crc32.ChecksumIEEE":             "F11 f",
	"hash/crc32.Update":                   "F31 f",
	"strconv.Atoi":                        "F12 f",
	"strconv.CanBackquote":                "F11 f",
	"strconv.ParseBool":                   "F12 f",
	"strconv.ParseComplex":                "F22 f",
	"strconv.ParseFloat":                  "F22 f",
	"strconv.ParseInt":                    "F32 f",
	"strconv.ParseUint":                   "F32 f",
	"strconv.Quote":                       "F11 f",
	"strconv.QuoteToASCII":                "F11 f",
	"strconv.QuoteToGraphic":              "F11 f",
	"strconv.QuotedPrefix":                "F12 c",
	"strconv.Unquote":                     "F12 f",
	"strings.Clone":                       "F11 f",
	"strings.Compare":                     "F21 e",
	"strings.Contains":                    "F21 b",
	"strings.ContainsAny":                 "F21 b",
	"strings.ContainsFunc":                "F21 b",
	"strings.ContainsRune":                "F21 b",
	"strings.Count":                       "F21 f",
	"strings.Cut":                         "F23 c",
	"strings.CutPrefix":                   "F22 p",
	"strings.CutSuffix":                   "F22 p",
	"strings.EqualFold":                   "F21 e",
	"strings.Fields":                      "F11 f",
	"strings.FieldsFunc":                  "F21 f",
	"strings.HasPrefix":                   "F21 p",
	"strings.HasSuffix":                   "F21 p",
	"strings.Index":                       "F21 i",
	"strings.IndexAny":                    "F21 i",
	"strings.IndexByte":                   "F21 i",
	"strings.IndexFunc":                   "F21 i",
	"strings.IndexRune":                   "F21 i",
	"strings.Join":                        "F21 f",
	"strings.LastIndex":                   "F21 j",
	"strings.LastIndexAny":                "F21 j",
	"strings.LastIndexByte":               "F21 j",
	"strings.LastIndexFunc":               "F21 j",
	"strings.Map":                         "F21 f",
	"strings.NewReader":                   "F11 f",
	"strings.Repeat":                      "F21 f",
	"strings.Replace":                     "F41 f",
	"strings.ReplaceAll":                  "F31 f",
	"strings.Split":                       "F21 f",
	"strings.SplitAfter":                  "F21 f",
	"strings.SplitAfterN":                 "F31 f",
	"strings.SplitN":                      "F31 f",
	"strings.Title":                       "F11 f",
	"strings.ToLower":                     "F11 f",
	"strings.ToLowerSpecial":              "F21 f",
	"strings.ToTitle":                     "F11 f",
	"strings.ToTitleSpecial":              "F21 f",
	"strings.ToUpper":                     "F11 f",
	"strings.ToUpperSpecial":              "F21 f",
	"strings.ToValidUTF8":                 "F21 f",
	"strings.Trim":                        "F21 t",
	"strings.TrimFunc":                    "F21 t",
	"strings.TrimLeft":                    "F21 t",
	"strings.TrimLeftFunc":                "F21 t",
	"strings.TrimPrefix":                  "F21 p",
	"strings.TrimRight":                   "F21 t",
	"strings.TrimRightFunc":               "F21 t",
	"strings.TrimSpace":                   "F11 t",
	"strings.TrimSuffix":                  "F21 p",
	"unicode/utf8.DecodeLastRune":         "F12 r",
	"unicode/utf8.DecodeLastRuneInString": "F12 r",
	"unicode/utf8.DecodeRune":             "F12 r",
	"unicode/utf8.DecodeRuneInString":     "F12 r",
	"unicode/utf8.FullRune":               "F11 r",
	"unicode/utf8.FullRuneInString":       "F11 r",
	"unicode/utf8.RuneCount":              "F11 f",
	"unicode/utf8.RuneCountInString":      "F11 f",
	"unicode/utf8.Valid":                  "F11 f",
	"unicode/utf8.ValidString":            "F11 f",
}
