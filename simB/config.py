# property -> (world, quick runs, thorough runs, [(library variant, workers)])
BV = [("default", 4), ("nostatic", 1), ("nocet", 1), ("debug", 1), ("clang", 1)]
PROPS_B = {
 "C12": ("B", 10000, 140000, BV), "C13": ("B", 72000, 1000000, BV), "C14": ("B", 34000, 480000, BV),
 "C15": ("B", 84000, 1200000, BV), "C16": ("B", 42000, 600000, BV), "C17": ("B", 40000, 560000, BV),
 "C19": ("B", 36000, 500000, BV), "C20": ("B", 30000, 400000, BV), "C21": ("B", 30000, 440000, BV),
}
