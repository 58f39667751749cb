package PKG

func vFlags() {}
