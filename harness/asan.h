// property/body: explored a second time with AddressSanitizer and UBSan, with the quick bounds
{
    "C01/alike", "C01/bools", "C01/crowds", "C01/deep", "C01/families", "C01/int2", "C01/lists", "C01/mixed", "C01/names", "C01/numbers", "C01/repeated-ids", "C01/special", "C01/strings", "C01/type-pairs", "C01/type-triples",
    "C02/crowds", "C02/large-crowds", "C02/permutations-deep", "C02/permutations-int", "C02/permutations-lists", "C02/permutations-mixed", "C02/permutations-strings", "C02/settings",
    "C03/bools", "C03/crowds", "C03/deep", "C03/families", "C03/int2", "C03/interleaved", "C03/lists", "C03/mixed", "C03/required", "C03/special", "C03/strings", "C03/type-pairs",
    "C04/bools", "C04/far", "C04/one", "C04/special", "C04/three", "C04/two", "C04/two-in-company", "C04/zeros",
    "C05/alike", "C05/bools", "C05/crowds", "C05/far-variables", "C05/interleaved", "C05/many-shared", "C05/mixed",
    "C06/alike", "C06/integer-lists", "C06/integers-small",
    "C07/alike", "C07/alike-long", "C07/capacity-enums", "C07/capacity-lists", "C07/capacity-strings", "C07/fitting", "C07/many-values", "C07/spellings",
    "C08/alike", "C08/histories", "C08/integers", "C08/integers-split", "C08/integers-wide", "C08/long-split", "C08/strings", "C08/strings-split",
    "C09/alike", "C09/constants", "C09/lists", "C09/long", "C09/namespaces", "C09/one-cap",
    "C10/alike", "C10/boundary", "C10/lists", "C10/long",
    "C11/alike", "C11/distance", "C11/distance-around", "C11/distance-extremes", "C11/distance-integers", "C11/long-texts", "C11/pattern-spellings", "C11/patterns",
    "C12/bytes", "C12/chains", "C12/characters", "C12/deep", "C12/edits", "C12/literals", "C12/names", "C12/precedence", "C12/structure", "C12/tokens",
    "C13/long-values", "C13/orders", "C13/product", "C13/values", "C13/white-space",
    "C14/chains", "C14/default-variables", "C14/fitting", "C14/ill-typed-strings", "C14/matrix",
    "C15/enums", "C15/everything", "C15/float-limits", "C15/mixed",
    "C16/crowds", "C16/deep", "C16/families", "C16/interleaved-lists", "C16/interleaved-mixed", "C16/kept-events", "C16/many-required", "C16/numbers", "C16/report-reuse", "C16/required", "C16/short-cuts", "C16/special", "C16/strings", "C16/unknown-values",
    "C18/alike", "C18/compounds", "C18/copies", "C18/predicates",
    "C19/map-growth", "C19/map-long-keys", "C19/map-operations", "C19/map-resizing", "C19/set-growth", "C19/set-insertions", "C19/set-operations", "C19/set-orders",
    "C20/alike-names", "C20/far-variables", "C20/further-variables", "C20/many-trees", "C20/orders", "C20/positions", "C20/shared-events", "C20/smaller-trees", "C20/spellings", "C20/two-trees",
    "C22/capacity", "C22/one-line", "C22/two-lines",
    "C23/alike", "C23/long", "C23/numbers", "C23/pairs", "C23/predicates", "C23/shapes", "C23/triples",
}
