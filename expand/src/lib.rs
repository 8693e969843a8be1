// used to have rustc expand the macros of matreex with all features
