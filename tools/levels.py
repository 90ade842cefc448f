NOT_CLAIMED = {}
SPECS_ALL = dict(C01='Clifford', C02='Clifford', C03='Clifford', C04='Clifford', C05='Clifford, Geometry', C06='Geometry',
             C07='Geometry', C08='Geometry, LinAlg', C09='Geometry', C10='Geometry', C11='Geometry', C12='LinAlg, Geometry', C13='Calculus', C14='Calculus',
             C15='Jets, Calculus', C16='Linear', C17='Calculus, Tensors', C18='Prec', C19='History', C20='Mixing, Clifford', C21='Printing', C22='Submanifold', C23='Factory', C24='PrintMode')
NOTE = ('Laws of the specification checked exhaustively over small prime fields; the code is bound to it by bounded, '
        'seeded plus enumerated sessions whose symbolic results are compared through an exact homomorphism into GF(44641).')
NOTES = {}
