/* empty: cross-target IR generation only needs the declarations */
