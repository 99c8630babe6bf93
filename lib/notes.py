NOTES = {
 "*": "The specification states the property; TLC enumerates or samples inputs from it, the real code is executed on them and TLC accepts or rejects every recorded event by exact arithmetic. "
      "Exhaustive only inside the stated small bounds, sampled beyond. Trusted: TLC, the BigInteger override of spec/BigInt.tla (self-tested against its TLA+ definitions), the driver's JSON printing.",
}
NA = {}
