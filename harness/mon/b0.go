package main

func init() { monitors["B01"] = monB01 }

// monB01: supply and balances after every block against the ledger.
func monB01(r *R) {
	r.Rule = histRule
	r.hists("hist", 40, 800, &watch{
		blocks: 12,
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, nil)
			x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
		},
	})
}
