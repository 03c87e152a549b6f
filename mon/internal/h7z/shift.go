package h7z

func urshift(number, bits uint32) uint32 {
	return number >> bits
}
