// Lets the compiler accept the bodyless function in c10.go.
