SPECIFICATION SpecExh
VIEW View
INVARIANTS RulesImplyHistory CodeOnce DisabledIffRedeemed TokensHaveOwners FrontHasNoRefresh OfflineOnly GrantsWereApproved OneGrantEach JtiOnce Accounted Export
CHECK_DEADLOCK FALSE
