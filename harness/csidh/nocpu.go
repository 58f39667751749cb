package csidh

func vFlags() {}
