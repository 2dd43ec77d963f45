// Package verifbridge is overlaid into the xtemplate module so that the harness
// can call the extractor in-process; it is never part of /repo.
package verifbridge

import "github.com/youthlin/t/cmd/xtemplate/internal"

// Run runs the extractor.
func Run(input, left, right, keyword, function, output string) error {
	return internal.Run(&internal.Param{
		Input: input, Left: left, Right: right, Keyword: keyword, Function: function, OutputFile: output,
	})
}

// KW mirrors one parsed keyword.
type KW struct {
	Name               string
	Ctxt, ID, IDPlural int
}

// ParseKeywords parses a keyword specification.
func ParseKeywords(s string) ([]KW, error) {
	ks, err := internal.ParseKeywords(s)
	var out []KW
	for _, k := range ks {
		out = append(out, KW{k.Name, k.MsgCtxt, k.MsgID, k.MsgID2})
	}
	return out, err
}
