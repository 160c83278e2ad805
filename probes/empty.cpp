int kfr_verif_empty(int x) { return x; }
