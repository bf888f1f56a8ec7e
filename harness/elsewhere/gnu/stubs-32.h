// nothing is linked
