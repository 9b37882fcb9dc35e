package checks

import (
	"verif/mc/fw"
	"verif/mc/ref"
)

// The token sequences of C03 and C47 end at the first token that no valid
// sequence has there. Here every valid sequence is tried with one token more,
// one less or another one anywhere in it, so that a parser that passes over a
// wrong token is seen to accept the whole.

func shorter(alphas []tokAlpha, by int) []tokAlpha {
	ret := append([]tokAlpha(nil), alphas...)
	for i := range ret {
		ret[i].quick -= by
		ret[i].deeper -= by
	}
	return ret
}

// wrongTokens calls judge for every sequence that differs from seq in one token.
func wrongTokens(seq, toks []string, judge func(seq []string) bool) bool {
	buf := make([]string, 0, len(seq)+1)
	for i := 0; i <= len(seq); i++ {
		for _, t := range toks {
			if !judge(append(append(append(buf[:0], seq[:i]...), t), seq[i:]...)) {
				return false
			}
			if i < len(seq) && t != seq[i] && !judge(append(append(append(buf[:0], seq[:i]...), t), seq[i+1:]...)) {
				return false
			}
		}
		if i < len(seq) && !judge(append(append(buf[:0], seq[:i]...), seq[i+1:]...)) {
			return false
		}
	}
	return true
}

// remainderBrace tells whether seq has a %{ inside of another sequence, where it
// is an operator and the beginning of an object.
func remainderBrace(seq []string) bool {
	depth := 0
	for _, t := range seq {
		switch {
		case t == "%{" && depth > 0:
			return true
		case t == "${" || t == "%{" || t == "{" && depth > 0:
			depth++
		case t == "}" && depth > 0:
			depth--
		}
	}
	return false
}

func init() {
	fw.Extend("C03",
		fw.S("wrong tokens", "every valid sequence of the token sequences, up to one token shorter, with each token of its set inserted at or put in place of each of its tokens, and with each left out",
			func(t fw.Tier, yield func(tokCase)) {
				genGrammar(t, shorter(tokAlphas, 1), func(s []string) (bool, int) {
					n, at, _ := ref.ParseTokens(s, false)
					return n != nil, at
				}, yield)
			}, func(r *fw.Rec, c tokCase) {
				toks := tokAlphas[c.Alpha].list()
				walkTokens(c, toks, func(seq []string) (bool, bool) {
					n, at, judged := ref.ParseTokens(seq, false)
					right := n == nil || !judged || wrongTokens(seq, toks, func(seq []string) bool {
						if len(seq) == 0 {
							return true
						}
						n, _, judged := ref.ParseTokens(seq, false)
						return !judged || tokSeq(r, seq, n)
					})
					return n != nil || at >= len(seq), right
				})
			}))
	fw.Extend("C47",
		fw.S("wrong tokens in bodies", "every valid sequence of the bodies, up to one token shorter, with each token of its set inserted at or put in place of each of its tokens, and with each left out",
			func(t fw.Tier, yield func(tokCase)) {
				genGrammar(t, shorter(gramBodies, 1), func(s []string) (bool, int) {
					_, ok, at, _ := ref.ParseBodyTokens(s)
					return ok, at
				}, yield)
			}, func(r *fw.Rec, c tokCase) {
				toks := gramBodies[c.Alpha].list()
				walkTokens(c, toks, func(seq []string) (bool, bool) {
					_, ok, at, judged := ref.ParseBodyTokens(seq)
					right := !ok || !judged || wrongTokens(seq, toks, func(seq []string) bool {
						want, ok, _, judged := ref.ParseBodyTokens(seq)
						return !judged || gramBody(r, joinTokens(seq), want, ok)
					})
					return ok || at >= len(seq), right
				})
			}),
		fw.S("wrong tokens in templates", "every valid sequence of the templates, up to one token shorter, with each token of its set inserted at or put in place of each of its tokens, and with each left out",
			func(t fw.Tier, yield func(tokCase)) {
				genGrammar(t, shorter(gramTemplates, 1), func(s []string) (bool, int) {
					n, at, _ := ref.ParseTemplateTokens(s)
					return n != nil, at
				}, yield)
			}, func(r *fw.Rec, c tokCase) {
				toks := gramTemplates[c.Alpha].list()
				walkTokens(c, toks, func(seq []string) (bool, bool) {
					n, at, judged := ref.ParseTemplateTokens(seq)
					right := n == nil || !judged || wrongTokens(seq, toks, func(seq []string) bool {
						n, _, judged := ref.ParseTemplateTokens(seq)
						return !judged || remainderBrace(seq) || gramTemplate(r, joinTemplate(seq), n)
					})
					return n != nil || at >= len(seq), right
				})
			}))
}
