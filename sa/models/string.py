ascii_lowercase = "abcdefghijklmnopqrstuvwxyz"
ascii_letters = ascii_lowercase + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
digits = "0123456789"
