package h

// The character tables of 3GPP TS 23.038, written out independently of the
// code under test.

const baseTable = "@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà"

var baseRunes = []rune(baseTable)

// baseRune is the character of a septet in the default alphabet.
func baseRune(s byte) rune { return baseRunes[s] }
