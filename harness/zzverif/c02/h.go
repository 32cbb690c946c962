// Package c02: normalisation and marginalisation.
package c02

import (
	"math"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/zzverif/hlib"
	"github.com/RenatoGeh/gospn/zzverif/nd"
)

// Normalised: on a valid network with normalised parameters all completions
// sum to one, the empty evidence has probability one, and each value is in
// [0,1].
func Normalised() {
	t := hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: nd.Bound("cats", 2), Share: true, NormW: true, NormP: true, Dec: true, NoInd: nd.Bound("noind", 0) == 1})
	S := t.Nodes[t.Root]
	nd.Assert(nd.Same(spn.Inference(S, spn.VarSet{}), 0), "no evidence has probability one (Inference)")
	nd.Assert(nd.Same(S.Value(spn.VarSet{}), 0), "no evidence has probability one (Value)")
	sum := 0.0
	for _, x := range t.AllComplete(nil) {
		p := math.Exp(spn.Inference(S, x))
		sum += p
	}
	nd.Assert(nd.Same(sum, 1), "the probabilities of all complete states add up to one")
}

// Marginal: evidence on a subset of the variables has the total probability of
// its completions, also with unnormalised weights.
func Marginal() {
	t := hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: nd.Bound("vars", 2), Cats: nd.Bound("cats", 2), Share: true, NormP: true, Dec: true, NoInd: nd.Bound("noind", 0) == 1})
	S := t.Nodes[t.Root]
	e := t.AnyEvidence("e")
	sum := 0.0
	for _, x := range t.AllComplete(e) {
		sum += math.Exp(spn.Inference(S, x))
	}
	nd.Assert(nd.Same(math.Exp(spn.Inference(S, e)), sum), "partial evidence has the total probability of its completions (Inference)")
	nd.Assert(nd.Same(math.Exp(S.Value(e)), sum), "partial evidence has the total probability of its completions (Value)")
}

// Irrelevant: evidence on variables outside the network changes nothing.
func Irrelevant() {
	t := hlib.AnyValid(2, hlib.Opt{Vars: 2, Cats: 2, Dec: true})
	S := t.Nodes[t.Root]
	e := t.AnyEvidence("e")
	f := hlib.Copy(e)
	f[2+3*nd.Choose("other", 2)] = 2 * nd.Choose("val", 2)
	nd.Assert(nd.Same(spn.Inference(S, e), spn.Inference(S, f)), "evidence outside the scope changes nothing (Inference)")
	nd.Assert(nd.Same(S.Value(e), S.Value(f)), "evidence outside the scope changes nothing (Value)")
	nd.Assert(nd.Same(S.Max(e), S.Max(f)), "evidence outside the scope changes nothing (Max)")
}

// Posterior: class posteriors computed with InferenceY add up to the evidence.
func Posterior() {
	t := hlib.AnyValid(nd.Bound("depth", 3), hlib.Opt{Vars: 2, Cats: 2, Share: true, NormP: true, Dec: true, NoInd: nd.Bound("noind", 0) == 1})
	S := t.Nodes[t.Root]
	e := t.AnyEvidence("e")
	Y := nd.Choose("Y", t.Vars)
	delete(e, Y)
	sum := 0.0
	for y := 0; y < t.Cats; y++ {
		sum += math.Exp(spn.InferenceY(S, e, Y, y))
	}
	nd.Assert(nd.Same(sum, math.Exp(spn.Inference(S, e))), "the joint values over all classes add up to the evidence")
}

// NormalisedDeep, MarginalDeep: one level deeper, multinomial leaves only.
func NormalisedDeep() { Normalised() }

func MarginalDeep() { Marginal() }

// Big: large networks.
func Big() {
	t := hlib.AnyBig()
	S := t.Nodes[t.Root]
	nd.Assert(nd.Same(spn.Inference(S, spn.VarSet{}), 0), "no evidence has probability one (Inference)")
	nd.Assert(nd.Same(S.Value(spn.VarSet{}), 0), "no evidence has probability one (Value)")
	e := t.BigEvidence("e")
	p := math.Exp(spn.Inference(S, e))
	for v := 0; v < t.Vars; v++ {
		if _, ok := e[v]; ok {
			continue
		}
		sum := 0.0
		for x := 0; x < t.Cats; x++ {
			f := hlib.Copy(e)
			f[v] = x
			sum += math.Exp(spn.Inference(S, f))
		}
		nd.Assert(nd.Same(sum, p), "evidence has the probability of its extensions by one variable")
	}
}
