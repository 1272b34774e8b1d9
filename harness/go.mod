module verif

go 1.27.3

require (
	github.com/KarmaPenny/pdfparser v0.0.0
	golang.org/x/image v0.47.0
)

replace github.com/KarmaPenny/pdfparser => /repo
