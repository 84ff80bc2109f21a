package hstorage

// What the statements of other properties say of the storage holds for MongoDB as well.

func VH_P07_MongoRemoval()         { VH_P21_Removal() }
func VH_P07_MongoRemoveManyLarge() { VH_P21_RemoveManyLarge() }
func VH_P08_MongoNames()           { VH_P21_Names() }
func VH_P08_MongoStep()            { VH_P21_AckStep() }
func VH_P08_MongoFilters()         { VH_P21_Filters() }
func VH_P09_MongoFilters()         { VH_P21_Filters() }
func VH_P09_MongoContent()         { VH_P21_Content() }
func VH_P10_MongoFind()            { VH_P21_Find() }
func VH_P10_MongoCount()           { VH_P21_Count() }
func VH_P11_MongoFilters()         { VH_P21_Filters() }
func VH_P11_MongoProjection()      { VH_P21_Projection() }
func VH_P12_MongoBatch()           { VH_P21_Batch() }
func VH_P12_MongoFailure()         { VH_P21_Failure() }
func VH_P13_MongoRetryRead()       { VH_P21_RetryRead() }
func VH_P13_MongoFind()            { VH_P21_Find() }
func VH_P14_MongoStep()            { VH_P21_AckStep() }
func VH_P15_MongoStep()            { VH_P21_AckStep() }
func VH_P15_MongoSequence()        { VH_P21_AckSequence() }
func VH_P15_MongoAgain()           { VH_P21_Step() }
func VH_P16_MongoConfiguration()   { VH_P21_Configuration() }
func VH_P22_MongoContent()         { VH_P21_Content() }
func VH_P23_MongoCount()           { VH_P21_Count() }
func VH_P23_MongoNames()           { VH_P21_Names() }
func VH_P26_MongoContent()         { VH_P21_Content() }
func VH_P26_MongoBatch()           { VH_P21_Batch() }
func VH_P26_MongoStep()            { VH_P21_Step() }
func VH_P27_MongoFind()            { VH_P21_Find() }
func VH_P27_MongoFilters()         { VH_P21_Filters() }
func VH_P27_MongoFindThree()       { VH_P21_FindThree() }
func VH_P27_MongoMany()            { VH_P21_Many() }
func VH_P27_MongoTwoKeys()         { VH_P21_TwoKeys() }
func VH_P27_MongoCount()           { VH_P21_Count() }
func VH_P27_MongoBadBreakpoint()   { VH_P21_BadBreakpoint() }
