DEFAULT = "Every obligation of the functions under contract is discharged for all inputs; the contracts of reflect, strconv and the runtime are trusted, and code outside the contracts is only covered by the bounded run."
NOTE = {}
NA = {}
