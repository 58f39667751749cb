package aes

func mAsm() IAES { return new(AESAsm) }
