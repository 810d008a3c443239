NA["P33"] = "Numeric exactness of floating-point conversions quantifies over rounding of runtime values; no static argument in reach bounds it (the wiring of the values is decided under P19-P22, P31)."
NA["P34"] = "A linear cost bound quantifies over runtime sizes of shared and repeatedly referenced objects, which no static amortised-cost analysis in reach can bound; reading the code it is known not to hold: an object referenced several times is expanded once per reference, which within the nesting limit can be exponential (termination, reservation and recursion are P02-P04)."
NA["P35"] = "Acceptance of every file real OneNote applications write depends on files, not on the source: there is no static oracle for what those applications emit."
