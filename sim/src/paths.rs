paths! {
    (7, 15, DynRank, A1<5, A2<1, Ev<3>>>),
    (2, 13, Rank<2>, A1<0, A2<1, Ev<5>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<9>>>),
    (1, 16, Rank<1>, A1<4, A2<0, Ev<0>>>),
    (2, 1, Rank<2>, A1<1, A2<4, Ev<0>>>),
    (3, 17, Rank<3>, A1<8, A2<4, Ev<17>>>),
    (11, 13, (Const<2>, Const<3>), A1<6, A2<0, Ev<13>>>),
    (0, 16, (), A1<3, A2<0, Ev<5>>>),
    (3, 8, Rank<3>, A1<1, A2<3, Ev<15>>>),
    (7, 6, DynRank, A1<6, A2<1, Ev<16>>>),
    (2, 5, Rank<2>, A1<1, A2<3, Ev<4>>>),
    (3, 8, Rank<3>, A1<7, A2<1, Ev<10>>>),
    (11, 25, DynRank, A1<4, A2<0, Ev<15>>>),
    (7, 4, DynRank, A1<1, A2<3, Ev<0>>>),
    (3, 4, Rank<3>, A1<0, A2<4, Ev<2>>>),
    (2, 6, Rank<2>, A1<9, A2<1, Ev<5>>>),
    (7, 17, DynRank, A1<8, A2<4, Ev<12>>>),
    (11, 16, (Const<2>, Const<3>), A1<12, A2<2, Ev<0>>>),
    (11, 11, (Const<2>, Const<3>), A1<6, A2<3, Ev<13>>>),
    (3, 9, Rank<3>, A1<8, A2<4, Ev<12>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<8, A2<3, Ev<2>>>),
    (7, 18, DynRank, A1<9, A2<4, Ev<3>>>),
    (7, 3, DynRank, A1<2, A2<4, Ev<10>>>),
    (1, 15, Rank<1>, A1<3, A2<0, Ev<13>>>),
    (11, 26, DynRank, A1<0, A2<3, Ev<11>>>),
    (3, 5, Rank<3>, A1<5, A2<2, Ev<11>>>),
    (0, 13, (), A1<3, A2<0, Ev<15>>>),
    (7, 18, DynRank, A1<2, A2<0, Ev<0>>>),
    (1, 6, Rank<1>, A1<5, A2<2, Ev<10>>>),
    (3, 2, Rank<3>, A1<0, A2<0, Ev<9>>>),
    (3, 16, Rank<3>, A1<10, A2<0, Ev<0>>>),
    (1, 16, Rank<1>, A1<1, A2<0, Ev<6>>>),
    (3, 13, Rank<3>, A1<4, A2<0, Ev<2>>>),
    (0, 6, (), A1<0, A2<3, Ev<2>>>),
    (7, 14, DynRank, A1<7, A2<1, Ev<10>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<2, A2<4, Ev<16>>>),
    (1, 12, Rank<1>, A1<1, A2<2, Ev<1>>>),
    (0, 5, (), A1<8, A2<0, Ev<0>>>),
    (7, 14, DynRank, A1<8, A2<0, Ev<16>>>),
    (2, 14, Rank<2>, A1<4, A2<3, Ev<10>>>),
    (3, 11, Rank<3>, A1<10, A2<3, Ev<16>>>),
    (3, 8, Rank<3>, A1<10, A2<3, Ev<13>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<2, A2<0, Ev<11>>>),
    (7, 4, DynRank, A1<11, A2<4, Ev<17>>>),
    (3, 4, Rank<3>, A1<11, A2<1, Ev<0>>>),
    (0, 17, (), A1<5, A2<0, Ev<8>>>),
    (2, 1, Rank<2>, A1<11, A2<0, Ev<16>>>),
    (0, 8, (), A1<5, A2<2, Ev<11>>>),
    (0, 14, (), A1<1, A2<1, Ev<3>>>),
    (2, 16, Rank<2>, A1<5, A2<2, Ev<2>>>),
    (3, 6, Rank<3>, A1<2, A2<0, Ev<5>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<7, A2<4, Ev<3>>>),
    (1, 7, Rank<1>, A1<7, A2<3, Ev<8>>>),
    (3, 11, Rank<3>, A1<3, A2<2, Ev<12>>>),
    (11, 15, (Const<2>, Const<3>), A1<6, A2<3, Ev<5>>>),
    (11, 24, DynRank, A1<1, A2<4, Ev<1>>>),
    (1, 9, Rank<1>, A1<10, A2<0, Ev<1>>>),
    (7, 6, DynRank, A1<9, A2<0, Ev<8>>>),
    (2, 22, DynRank, A1<0, A2<0, Ev<5>>>),
    (2, 0, Rank<2>, A1<2, A2<0, Ev<7>>>),
    (0, 15, (), A1<10, A2<2, Ev<9>>>),
    (1, 14, Rank<1>, A1<4, A2<1, Ev<7>>>),
    (2, 15, Rank<2>, A1<0, A2<1, Ev<8>>>),
    (7, 12, DynRank, A1<5, A2<0, Ev<5>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<0, A2<4, Ev<10>>>),
    (0, 2, (), A1<8, A2<3, Ev<11>>>),
    (1, 20, DynRank, A1<10, A2<0, Ev<0>>>),
    (1, 13, Rank<1>, A1<8, A2<0, Ev<3>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<2, A2<1, Ev<0>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<0, A2<3, Ev<16>>>),
    (1, 8, Rank<1>, A1<12, A2<0, Ev<15>>>),
    (7, 7, DynRank, A1<13, A2<2, Ev<0>>>),
    (0, 1, (), A1<1, A2<1, Ev<17>>>),
    (0, 7, (), A1<4, A2<0, Ev<0>>>),
    (7, 12, DynRank, A1<8, A2<4, Ev<2>>>),
    (2, 8, Rank<2>, A1<1, A2<3, Ev<6>>>),
    (3, 5, Rank<3>, A1<6, A2<0, Ev<1>>>),
    (11, 17, (Const<2>, Const<3>), A1<0, A2<0, Ev<5>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<12, A2<4, Ev<11>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<9, A2<1, Ev<0>>>),
    (7, 2, DynRank, A1<8, A2<3, Ev<8>>>),
    (3, 10, Rank<3>, A1<9, A2<0, Ev<6>>>),
    (7, 10, DynRank, A1<7, A2<3, Ev<7>>>),
    (3, 15, Rank<3>, A1<6, A2<0, Ev<5>>>),
    (7, 7, DynRank, A1<7, A2<3, Ev<5>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<3>>>),
    (11, 23, DynRank, A1<2, A2<3, Ev<10>>>),
    (11, 24, DynRank, A1<0, A2<0, Ev<2>>>),
    (1, 3, Rank<1>, A1<2, A2<3, Ev<12>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<11, A2<3, Ev<6>>>),
    (0, 1, (), A1<4, A2<1, Ev<2>>>),
    (3, 14, Rank<3>, A1<0, A2<4, Ev<3>>>),
    (11, 8, (Const<2>, Const<3>), A1<12, A2<2, Ev<0>>>),
    (0, 7, (), A1<10, A2<0, Ev<15>>>),
    (0, 5, (), A1<5, A2<3, Ev<9>>>),
    (7, 9, DynRank, A1<8, A2<4, Ev<9>>>),
    (2, 22, DynRank, A1<7, A2<3, Ev<12>>>),
    (1, 17, Rank<1>, A1<7, A2<4, Ev<7>>>),
    (0, 7, (), A1<6, A2<0, Ev<4>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<10, A2<1, Ev<8>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<6, A2<0, Ev<1>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<6, A2<1, Ev<2>>>),
    (2, 11, Rank<2>, A1<8, A2<1, Ev<11>>>),
    (11, 3, (Const<2>, Const<3>), A1<11, A2<2, Ev<13>>>),
    (0, 8, (), A1<1, A2<0, Ev<4>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<6, A2<0, Ev<14>>>),
    (0, 4, (), A1<12, A2<1, Ev<12>>>),
    (0, 4, (), A1<4, A2<3, Ev<8>>>),
    (11, 15, (Const<2>, Const<3>), A1<1, A2<1, Ev<13>>>),
    (11, 2, (Const<2>, Const<3>), A1<1, A2<0, Ev<14>>>),
    (3, 4, Rank<3>, A1<10, A2<0, Ev<1>>>),
    (3, 14, Rank<3>, A1<7, A2<1, Ev<0>>>),
    (1, 21, DynRank, A1<8, A2<4, Ev<13>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<0, A2<1, Ev<5>>>),
    (2, 10, Rank<2>, A1<13, A2<0, Ev<9>>>),
    (7, 2, DynRank, A1<9, A2<0, Ev<12>>>),
    (3, 10, Rank<3>, A1<11, A2<1, Ev<0>>>),
    (1, 11, Rank<1>, A1<8, A2<0, Ev<6>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<1, A2<1, Ev<15>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<9, A2<4, Ev<0>>>),
    (1, 17, Rank<1>, A1<13, A2<0, Ev<9>>>),
    (1, 7, Rank<1>, A1<13, A2<0, Ev<5>>>),
    (11, 15, (Const<2>, Const<3>), A1<4, A2<0, Ev<7>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<13, A2<1, Ev<9>>>),
    (2, 8, Rank<2>, A1<13, A2<0, Ev<4>>>),
    (11, 14, (Const<2>, Const<3>), A1<12, A2<3, Ev<6>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<4, A2<2, Ev<0>>>),
    (11, 12, (Const<2>, Const<3>), A1<4, A2<0, Ev<17>>>),
    (0, 3, (), A1<4, A2<0, Ev<16>>>),
    (11, 26, DynRank, A1<8, A2<0, Ev<5>>>),
    (0, 17, (), A1<6, A2<2, Ev<15>>>),
    (0, 13, (), A1<7, A2<3, Ev<14>>>),
    (1, 14, Rank<1>, A1<5, A2<3, Ev<2>>>),
    (3, 0, Rank<3>, A1<6, A2<4, Ev<17>>>),
    (11, 25, DynRank, A1<1, A2<3, Ev<7>>>),
    (2, 0, Rank<2>, A1<11, A2<0, Ev<0>>>),
    (3, 8, Rank<3>, A1<1, A2<0, Ev<4>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<7, A2<4, Ev<12>>>),
    (11, 14, (Const<2>, Const<3>), A1<11, A2<2, Ev<2>>>),
    (1, 11, Rank<1>, A1<3, A2<1, Ev<0>>>),
    (11, 23, DynRank, A1<0, A2<0, Ev<3>>>),
    (1, 10, Rank<1>, A1<13, A2<0, Ev<2>>>),
    (3, 14, Rank<3>, A1<7, A2<2, Ev<14>>>),
    (2, 5, Rank<2>, A1<8, A2<0, Ev<6>>>),
    (1, 7, Rank<1>, A1<10, A2<3, Ev<0>>>),
    (1, 1, Rank<1>, A1<4, A2<0, Ev<11>>>),
    (2, 10, Rank<2>, A1<8, A2<3, Ev<7>>>),
    (2, 10, Rank<2>, A1<0, A2<4, Ev<5>>>),
    (1, 12, Rank<1>, A1<10, A2<2, Ev<17>>>),
    (0, 17, (), A1<3, A2<3, Ev<16>>>),
    (11, 2, (Const<2>, Const<3>), A1<2, A2<3, Ev<0>>>),
    (2, 4, Rank<2>, A1<0, A2<1, Ev<9>>>),
    (0, 15, (), A1<1, A2<0, Ev<0>>>),
    (11, 15, (Const<2>, Const<3>), A1<1, A2<0, Ev<16>>>),
    (3, 11, Rank<3>, A1<1, A2<3, Ev<13>>>),
    (3, 14, Rank<3>, A1<3, A2<0, Ev<4>>>),
    (2, 3, Rank<2>, A1<13, A2<0, Ev<0>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<0, A2<4, Ev<6>>>),
    (0, 12, (), A1<2, A2<0, Ev<5>>>),
    (11, 0, (Const<2>, Const<3>), A1<12, A2<4, Ev<14>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<11>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<13, A2<0, Ev<5>>>),
    (1, 1, Rank<1>, A1<1, A2<0, Ev<11>>>),
    (3, 14, Rank<3>, A1<12, A2<3, Ev<0>>>),
    (3, 9, Rank<3>, A1<4, A2<0, Ev<15>>>),
    (0, 14, (), A1<8, A2<2, Ev<17>>>),
    (1, 5, Rank<1>, A1<4, A2<1, Ev<17>>>),
    (0, 5, (), A1<6, A2<4, Ev<12>>>),
    (1, 4, Rank<1>, A1<7, A2<1, Ev<2>>>),
    (3, 3, Rank<3>, A1<2, A2<2, Ev<0>>>),
    (1, 4, Rank<1>, A1<6, A2<4, Ev<1>>>),
    (0, 6, (), A1<1, A2<1, Ev<11>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<7>>>),
    (1, 8, Rank<1>, A1<0, A2<0, Ev<11>>>),
    (11, 17, (Const<2>, Const<3>), A1<8, A2<4, Ev<16>>>),
    (11, 7, (Const<2>, Const<3>), A1<13, A2<2, Ev<14>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<0, A2<4, Ev<14>>>),
    (3, 1, Rank<3>, A1<11, A2<0, Ev<13>>>),
    (7, 10, DynRank, A1<6, A2<0, Ev<0>>>),
    (11, 26, DynRank, A1<1, A2<3, Ev<2>>>),
    (11, 8, (Const<2>, Const<3>), A1<7, A2<1, Ev<0>>>),
    (7, 4, DynRank, A1<4, A2<2, Ev<9>>>),
    (2, 12, Rank<2>, A1<7, A2<4, Ev<17>>>),
    (7, 2, DynRank, A1<7, A2<1, Ev<0>>>),
    (11, 4, (Const<2>, Const<3>), A1<12, A2<0, Ev<9>>>),
    (11, 26, DynRank, A1<0, A2<4, Ev<16>>>),
    (7, 8, DynRank, A1<1, A2<0, Ev<3>>>),
    (2, 14, Rank<2>, A1<3, A2<3, Ev<16>>>),
    (1, 4, Rank<1>, A1<0, A2<3, Ev<10>>>),
    (7, 4, DynRank, A1<7, A2<2, Ev<3>>>),
    (7, 16, DynRank, A1<1, A2<2, Ev<1>>>),
    (11, 13, (Const<2>, Const<3>), A1<1, A2<2, Ev<5>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<14>>>),
    (11, 4, (Const<2>, Const<3>), A1<10, A2<0, Ev<14>>>),
    (2, 8, Rank<2>, A1<5, A2<2, Ev<16>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<12, A2<1, Ev<11>>>),
    (7, 18, DynRank, A1<1, A2<3, Ev<2>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<13, A2<0, Ev<7>>>),
    (3, 12, Rank<3>, A1<4, A2<0, Ev<14>>>),
    (7, 0, DynRank, A1<9, A2<0, Ev<17>>>),
    (3, 15, Rank<3>, A1<5, A2<3, Ev<8>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<9, A2<2, Ev<17>>>),
    (1, 19, DynRank, A1<6, A2<0, Ev<5>>>),
    (2, 10, Rank<2>, A1<4, A2<1, Ev<15>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<4, A2<2, Ev<9>>>),
    (2, 2, Rank<2>, A1<9, A2<4, Ev<10>>>),
    (0, 7, (), A1<0, A2<0, Ev<5>>>),
    (2, 12, Rank<2>, A1<0, A2<2, Ev<7>>>),
    (2, 0, Rank<2>, A1<7, A2<0, Ev<0>>>),
    (11, 3, (Const<2>, Const<3>), A1<4, A2<3, Ev<10>>>),
    (11, 11, (Const<2>, Const<3>), A1<7, A2<0, Ev<1>>>),
    (2, 17, Rank<2>, A1<8, A2<4, Ev<17>>>),
    (7, 7, DynRank, A1<0, A2<0, Ev<9>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<13, A2<2, Ev<5>>>),
    (0, 17, (), A1<8, A2<4, Ev<12>>>),
    (11, 0, (Const<2>, Const<3>), A1<11, A2<0, Ev<8>>>),
    (0, 14, (), A1<1, A2<3, Ev<4>>>),
    (0, 14, (), A1<5, A2<3, Ev<15>>>),
    (11, 5, (Const<2>, Const<3>), A1<3, A2<3, Ev<0>>>),
    (2, 4, Rank<2>, A1<7, A2<0, Ev<14>>>),
    (3, 11, Rank<3>, A1<6, A2<4, Ev<2>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<9, A2<0, Ev<5>>>),
    (0, 14, (), A1<7, A2<4, Ev<16>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<2, A2<1, Ev<5>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<8, A2<0, Ev<5>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<0, A2<2, Ev<15>>>),
    (3, 6, Rank<3>, A1<13, A2<0, Ev<17>>>),
    (11, 11, (Const<2>, Const<3>), A1<8, A2<0, Ev<0>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<2, A2<4, Ev<0>>>),
    (0, 5, (), A1<5, A2<0, Ev<6>>>),
    (11, 1, (Const<2>, Const<3>), A1<6, A2<2, Ev<6>>>),
    (1, 11, Rank<1>, A1<0, A2<0, Ev<3>>>),
    (7, 7, DynRank, A1<4, A2<0, Ev<15>>>),
    (3, 3, Rank<3>, A1<11, A2<2, Ev<0>>>),
    (0, 11, (), A1<3, A2<3, Ev<1>>>),
    (0, 14, (), A1<10, A2<0, Ev<9>>>),
    (2, 10, Rank<2>, A1<1, A2<1, Ev<2>>>),
    (1, 0, Rank<1>, A1<10, A2<1, Ev<4>>>),
    (1, 9, Rank<1>, A1<8, A2<4, Ev<12>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<12>>>),
    (0, 7, (), A1<3, A2<2, Ev<9>>>),
    (11, 10, (Const<2>, Const<3>), A1<1, A2<0, Ev<10>>>),
    (1, 13, Rank<1>, A1<12, A2<2, Ev<14>>>),
    (1, 21, DynRank, A1<5, A2<0, Ev<9>>>),
    (1, 1, Rank<1>, A1<3, A2<3, Ev<13>>>),
    (7, 11, DynRank, A1<0, A2<0, Ev<17>>>),
    (7, 11, DynRank, A1<13, A2<0, Ev<9>>>),
    (1, 7, Rank<1>, A1<1, A2<1, Ev<2>>>),
    (0, 1, (), A1<0, A2<2, Ev<9>>>),
    (0, 12, (), A1<0, A2<1, Ev<1>>>),
    (3, 16, Rank<3>, A1<6, A2<0, Ev<11>>>),
    (3, 12, Rank<3>, A1<6, A2<0, Ev<15>>>),
    (1, 20, DynRank, A1<1, A2<0, Ev<1>>>),
    (3, 16, Rank<3>, A1<1, A2<0, Ev<14>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<5, A2<3, Ev<3>>>),
    (3, 9, Rank<3>, A1<8, A2<4, Ev<12>>>),
    (2, 1, Rank<2>, A1<4, A2<0, Ev<14>>>),
    (7, 2, DynRank, A1<6, A2<0, Ev<17>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<16>>>),
    (11, 12, (Const<2>, Const<3>), A1<1, A2<4, Ev<14>>>),
    (11, 8, (Const<2>, Const<3>), A1<2, A2<0, Ev<1>>>),
    (3, 2, Rank<3>, A1<10, A2<3, Ev<4>>>),
    (3, 10, Rank<3>, A1<5, A2<3, Ev<11>>>),
    (7, 4, DynRank, A1<0, A2<1, Ev<11>>>),
    (1, 15, Rank<1>, A1<6, A2<1, Ev<14>>>),
    (7, 3, DynRank, A1<13, A2<0, Ev<0>>>),
    (0, 16, (), A1<1, A2<0, Ev<7>>>),
    (2, 3, Rank<2>, A1<11, A2<2, Ev<2>>>),
    (7, 13, DynRank, A1<4, A2<0, Ev<0>>>),
    (3, 8, Rank<3>, A1<6, A2<2, Ev<17>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<8, A2<4, Ev<0>>>),
    (1, 13, Rank<1>, A1<1, A2<0, Ev<0>>>),
    (2, 10, Rank<2>, A1<5, A2<0, Ev<6>>>),
    (3, 17, Rank<3>, A1<5, A2<2, Ev<9>>>),
    (11, 12, (Const<2>, Const<3>), A1<11, A2<3, Ev<0>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<0, A2<0, Ev<4>>>),
    (0, 12, (), A1<0, A2<4, Ev<3>>>),
    (11, 13, (Const<2>, Const<3>), A1<2, A2<2, Ev<6>>>),
    (1, 3, Rank<1>, A1<0, A2<0, Ev<13>>>),
    (7, 16, DynRank, A1<2, A2<0, Ev<15>>>),
    (1, 19, DynRank, A1<12, A2<3, Ev<0>>>),
    (7, 15, DynRank, A1<11, A2<2, Ev<5>>>),
    (3, 9, Rank<3>, A1<11, A2<4, Ev<5>>>),
    (3, 3, Rank<3>, A1<3, A2<3, Ev<17>>>),
    (3, 16, Rank<3>, A1<12, A2<1, Ev<10>>>),
    (3, 15, Rank<3>, A1<2, A2<0, Ev<0>>>),
    (2, 9, Rank<2>, A1<1, A2<4, Ev<10>>>),
    (7, 2, DynRank, A1<13, A2<2, Ev<1>>>),
    (11, 10, (Const<2>, Const<3>), A1<9, A2<4, Ev<6>>>),
    (2, 10, Rank<2>, A1<6, A2<2, Ev<12>>>),
    (0, 2, (), A1<1, A2<0, Ev<5>>>),
    (7, 3, DynRank, A1<10, A2<2, Ev<1>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<2, A2<0, Ev<8>>>),
    (1, 21, DynRank, A1<11, A2<1, Ev<0>>>),
    (0, 2, (), A1<0, A2<1, Ev<5>>>),
    (11, 8, (Const<2>, Const<3>), A1<0, A2<0, Ev<2>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<1, A2<2, Ev<8>>>),
    (3, 2, Rank<3>, A1<0, A2<0, Ev<6>>>),
    (7, 11, DynRank, A1<2, A2<0, Ev<3>>>),
    (11, 10, (Const<2>, Const<3>), A1<7, A2<0, Ev<12>>>),
    (1, 3, Rank<1>, A1<7, A2<0, Ev<7>>>),
    (0, 5, (), A1<1, A2<0, Ev<1>>>),
    (1, 15, Rank<1>, A1<11, A2<1, Ev<8>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<8, A2<3, Ev<0>>>),
    (3, 5, Rank<3>, A1<1, A2<1, Ev<16>>>),
    (0, 12, (), A1<12, A2<2, Ev<17>>>),
    (2, 11, Rank<2>, A1<9, A2<0, Ev<14>>>),
    (1, 2, Rank<1>, A1<7, A2<1, Ev<10>>>),
    (7, 4, DynRank, A1<1, A2<0, Ev<1>>>),
    (1, 7, Rank<1>, A1<0, A2<2, Ev<11>>>),
    (7, 11, DynRank, A1<10, A2<0, Ev<1>>>),
    (2, 15, Rank<2>, A1<7, A2<0, Ev<4>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<6, A2<3, Ev<2>>>),
    (1, 7, Rank<1>, A1<5, A2<3, Ev<13>>>),
    (0, 16, (), A1<9, A2<0, Ev<0>>>),
    (0, 15, (), A1<6, A2<0, Ev<5>>>),
    (3, 10, Rank<3>, A1<0, A2<4, Ev<0>>>),
    (11, 25, DynRank, A1<5, A2<0, Ev<10>>>),
    (1, 12, Rank<1>, A1<4, A2<3, Ev<0>>>),
    (2, 13, Rank<2>, A1<9, A2<0, Ev<12>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<12, A2<0, Ev<14>>>),
    (11, 26, DynRank, A1<10, A2<0, Ev<10>>>),
    (1, 7, Rank<1>, A1<0, A2<0, Ev<5>>>),
    (2, 1, Rank<2>, A1<5, A2<3, Ev<11>>>),
    (7, 1, DynRank, A1<3, A2<4, Ev<7>>>),
    (1, 20, DynRank, A1<12, A2<1, Ev<3>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<9, A2<3, Ev<14>>>),
    (3, 7, Rank<3>, A1<7, A2<0, Ev<13>>>),
    (7, 12, DynRank, A1<5, A2<0, Ev<11>>>),
    (0, 13, (), A1<9, A2<3, Ev<10>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<0, A2<2, Ev<14>>>),
    (2, 22, DynRank, A1<1, A2<1, Ev<7>>>),
    (3, 2, Rank<3>, A1<8, A2<0, Ev<7>>>),
    (1, 17, Rank<1>, A1<10, A2<3, Ev<13>>>),
    (0, 12, (), A1<1, A2<3, Ev<7>>>),
    (3, 4, Rank<3>, A1<1, A2<0, Ev<11>>>),
    (3, 3, Rank<3>, A1<1, A2<0, Ev<16>>>),
    (1, 14, Rank<1>, A1<13, A2<0, Ev<11>>>),
    (11, 7, (Const<2>, Const<3>), A1<1, A2<1, Ev<4>>>),
    (2, 11, Rank<2>, A1<0, A2<3, Ev<1>>>),
    (11, 9, (Const<2>, Const<3>), A1<8, A2<4, Ev<17>>>),
    (2, 7, Rank<2>, A1<2, A2<0, Ev<5>>>),
    (11, 5, (Const<2>, Const<3>), A1<12, A2<2, Ev<17>>>),
    (3, 6, Rank<3>, A1<12, A2<3, Ev<9>>>),
    (11, 16, (Const<2>, Const<3>), A1<11, A2<2, Ev<14>>>),
    (11, 7, (Const<2>, Const<3>), A1<5, A2<1, Ev<11>>>),
    (0, 9, (), A1<7, A2<4, Ev<15>>>),
    (3, 11, Rank<3>, A1<1, A2<0, Ev<1>>>),
    (1, 3, Rank<1>, A1<1, A2<0, Ev<5>>>),
    (2, 16, Rank<2>, A1<7, A2<3, Ev<10>>>),
    (1, 16, Rank<1>, A1<0, A2<0, Ev<11>>>),
    (1, 9, Rank<1>, A1<8, A2<4, Ev<8>>>),
    (1, 16, Rank<1>, A1<1, A2<2, Ev<16>>>),
    (1, 14, Rank<1>, A1<1, A2<2, Ev<6>>>),
    (11, 17, (Const<2>, Const<3>), A1<5, A2<1, Ev<0>>>),
    (11, 1, (Const<2>, Const<3>), A1<9, A2<0, Ev<5>>>),
    (7, 17, DynRank, A1<4, A2<4, Ev<1>>>),
    (2, 7, Rank<2>, A1<7, A2<0, Ev<15>>>),
    (1, 10, Rank<1>, A1<0, A2<2, Ev<4>>>),
    (2, 2, Rank<2>, A1<2, A2<3, Ev<12>>>),
    (7, 17, DynRank, A1<1, A2<4, Ev<12>>>),
    (1, 6, Rank<1>, A1<12, A2<2, Ev<17>>>),
    (1, 7, Rank<1>, A1<12, A2<0, Ev<7>>>),
    (7, 6, DynRank, A1<9, A2<0, Ev<14>>>),
    (2, 17, Rank<2>, A1<0, A2<0, Ev<5>>>),
    (2, 14, Rank<2>, A1<1, A2<0, Ev<17>>>),
    (3, 3, Rank<3>, A1<3, A2<3, Ev<13>>>),
    (11, 25, DynRank, A1<3, A2<2, Ev<17>>>),
    (0, 16, (), A1<0, A2<2, Ev<6>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<6>>>),
    (7, 5, DynRank, A1<1, A2<0, Ev<13>>>),
    (1, 0, Rank<1>, A1<5, A2<0, Ev<0>>>),
    (0, 6, (), A1<2, A2<0, Ev<0>>>),
    (3, 6, Rank<3>, A1<3, A2<2, Ev<0>>>),
    (1, 21, DynRank, A1<5, A2<0, Ev<4>>>),
    (7, 4, DynRank, A1<6, A2<0, Ev<3>>>),
    (1, 12, Rank<1>, A1<9, A2<0, Ev<9>>>),
    (0, 8, (), A1<11, A2<1, Ev<14>>>),
    (7, 12, DynRank, A1<12, A2<1, Ev<5>>>),
    (11, 5, (Const<2>, Const<3>), A1<11, A2<0, Ev<15>>>),
    (1, 8, Rank<1>, A1<4, A2<1, Ev<0>>>),
    (11, 23, DynRank, A1<1, A2<3, Ev<16>>>),
    (0, 11, (), A1<4, A2<0, Ev<14>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<1, A2<3, Ev<13>>>),
    (11, 0, (Const<2>, Const<3>), A1<8, A2<3, Ev<0>>>),
    (11, 23, DynRank, A1<4, A2<1, Ev<0>>>),
    (1, 10, Rank<1>, A1<1, A2<4, Ev<0>>>),
    (0, 16, (), A1<0, A2<0, Ev<4>>>),
    (7, 0, DynRank, A1<4, A2<1, Ev<9>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<10, A2<1, Ev<7>>>),
    (1, 20, DynRank, A1<2, A2<3, Ev<10>>>),
    (7, 6, DynRank, A1<7, A2<0, Ev<2>>>),
    (2, 14, Rank<2>, A1<6, A2<4, Ev<12>>>),
    (0, 11, (), A1<6, A2<1, Ev<5>>>),
    (2, 9, Rank<2>, A1<8, A2<4, Ev<12>>>),
    (3, 7, Rank<3>, A1<2, A2<3, Ev<3>>>),
    (1, 0, Rank<1>, A1<3, A2<4, Ev<1>>>),
    (0, 7, (), A1<10, A2<3, Ev<2>>>),
    (1, 13, Rank<1>, A1<9, A2<0, Ev<10>>>),
    (1, 15, Rank<1>, A1<7, A2<0, Ev<0>>>),
    (11, 13, (Const<2>, Const<3>), A1<11, A2<0, Ev<2>>>),
    (3, 0, Rank<3>, A1<0, A2<0, Ev<0>>>),
    (0, 7, (), A1<12, A2<1, Ev<8>>>),
    (3, 4, Rank<3>, A1<7, A2<0, Ev<3>>>),
    (0, 13, (), A1<3, A2<4, Ev<9>>>),
    (2, 15, Rank<2>, A1<9, A2<0, Ev<5>>>),
    (2, 6, Rank<2>, A1<6, A2<2, Ev<14>>>),
    (2, 9, Rank<2>, A1<2, A2<4, Ev<0>>>),
    (1, 2, Rank<1>, A1<9, A2<1, Ev<0>>>),
    (0, 16, (), A1<5, A2<1, Ev<17>>>),
    (11, 12, (Const<2>, Const<3>), A1<0, A2<0, Ev<1>>>),
    (7, 2, DynRank, A1<2, A2<0, Ev<9>>>),
    (7, 16, DynRank, A1<3, A2<1, Ev<5>>>),
    (1, 3, Rank<1>, A1<1, A2<1, Ev<15>>>),
    (7, 8, DynRank, A1<0, A2<0, Ev<1>>>),
    (3, 1, Rank<3>, A1<10, A2<3, Ev<0>>>),
    (2, 2, Rank<2>, A1<0, A2<1, Ev<6>>>),
    (3, 8, Rank<3>, A1<12, A2<0, Ev<7>>>),
    (1, 19, DynRank, A1<2, A2<0, Ev<9>>>),
    (3, 1, Rank<3>, A1<7, A2<0, Ev<15>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<11, A2<3, Ev<13>>>),
    (7, 5, DynRank, A1<10, A2<0, Ev<4>>>),
    (11, 17, (Const<2>, Const<3>), A1<9, A2<3, Ev<0>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<0, A2<0, Ev<8>>>),
    (1, 10, Rank<1>, A1<1, A2<2, Ev<15>>>),
    (2, 1, Rank<2>, A1<6, A2<1, Ev<17>>>),
    (11, 17, (Const<2>, Const<3>), A1<11, A2<4, Ev<3>>>),
    (2, 2, Rank<2>, A1<13, A2<0, Ev<2>>>),
    (2, 0, Rank<2>, A1<0, A2<3, Ev<0>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<13, A2<1, Ev<0>>>),
    (3, 9, Rank<3>, A1<2, A2<4, Ev<10>>>),
    (7, 5, DynRank, A1<11, A2<1, Ev<6>>>),
    (11, 10, (Const<2>, Const<3>), A1<13, A2<0, Ev<16>>>),
    (0, 8, (), A1<12, A2<1, Ev<5>>>),
    (7, 16, DynRank, A1<0, A2<0, Ev<13>>>),
    (2, 13, Rank<2>, A1<1, A2<0, Ev<3>>>),
    (0, 13, (), A1<9, A2<0, Ev<0>>>),
    (2, 6, Rank<2>, A1<0, A2<0, Ev<13>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<6, A2<2, Ev<8>>>),
    (7, 13, DynRank, A1<13, A2<3, Ev<8>>>),
    (11, 11, (Const<2>, Const<3>), A1<12, A2<1, Ev<14>>>),
    (2, 17, Rank<2>, A1<6, A2<0, Ev<9>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<5, A2<2, Ev<10>>>),
    (1, 3, Rank<1>, A1<12, A2<4, Ev<14>>>),
    (2, 1, Rank<2>, A1<1, A2<2, Ev<15>>>),
    (11, 3, (Const<2>, Const<3>), A1<8, A2<0, Ev<16>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<1, A2<4, Ev<13>>>),
    (7, 2, DynRank, A1<5, A2<2, Ev<2>>>),
    (11, 14, (Const<2>, Const<3>), A1<2, A2<4, Ev<12>>>),
    (2, 16, Rank<2>, A1<4, A2<2, Ev<16>>>),
    (7, 8, DynRank, A1<9, A2<0, Ev<16>>>),
    (2, 8, Rank<2>, A1<0, A2<2, Ev<3>>>),
    (1, 1, Rank<1>, A1<13, A2<0, Ev<1>>>),
    (3, 16, Rank<3>, A1<13, A2<3, Ev<15>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<0>>>),
    (3, 16, Rank<3>, A1<3, A2<0, Ev<2>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<4>>>),
    (11, 0, (Const<2>, Const<3>), A1<0, A2<0, Ev<5>>>),
    (0, 1, (), A1<8, A2<1, Ev<7>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<6, A2<0, Ev<5>>>),
    (0, 15, (), A1<2, A2<2, Ev<0>>>),
    (11, 17, (Const<2>, Const<3>), A1<1, A2<1, Ev<1>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<4>>>),
    (1, 17, Rank<1>, A1<6, A2<4, Ev<17>>>),
    (0, 14, (), A1<0, A2<1, Ev<10>>>),
    (7, 2, DynRank, A1<0, A2<3, Ev<5>>>),
    (11, 10, (Const<2>, Const<3>), A1<12, A2<0, Ev<8>>>),
    (11, 7, (Const<2>, Const<3>), A1<11, A2<0, Ev<9>>>),
    (2, 11, Rank<2>, A1<1, A2<3, Ev<10>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<0, A2<1, Ev<8>>>),
    (7, 8, DynRank, A1<6, A2<2, Ev<0>>>),
    (0, 15, (), A1<12, A2<3, Ev<0>>>),
    (7, 14, DynRank, A1<9, A2<4, Ev<15>>>),
    (1, 10, Rank<1>, A1<5, A2<3, Ev<0>>>),
    (2, 17, Rank<2>, A1<4, A2<4, Ev<7>>>),
    (0, 9, (), A1<8, A2<4, Ev<12>>>),
    (0, 8, (), A1<11, A2<2, Ev<10>>>),
    (2, 7, Rank<2>, A1<11, A2<1, Ev<17>>>),
    (2, 1, Rank<2>, A1<8, A2<1, Ev<8>>>),
    (2, 14, Rank<2>, A1<13, A2<0, Ev<8>>>),
    (0, 9, (), A1<0, A2<3, Ev<3>>>),
    (1, 21, DynRank, A1<9, A2<1, Ev<5>>>),
    (11, 1, (Const<2>, Const<3>), A1<4, A2<4, Ev<15>>>),
    (0, 8, (), A1<0, A2<0, Ev<17>>>),
    (3, 12, Rank<3>, A1<3, A2<1, Ev<17>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<3, A2<3, Ev<0>>>),
    (3, 17, Rank<3>, A1<2, A2<1, Ev<5>>>),
    (7, 1, DynRank, A1<6, A2<0, Ev<0>>>),
    (1, 20, DynRank, A1<4, A2<4, Ev<7>>>),
    (3, 8, Rank<3>, A1<3, A2<0, Ev<7>>>),
    (3, 5, Rank<3>, A1<4, A2<4, Ev<2>>>),
    (11, 7, (Const<2>, Const<3>), A1<12, A2<0, Ev<0>>>),
    (1, 3, Rank<1>, A1<4, A2<4, Ev<0>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<16>>>),
    (11, 5, (Const<2>, Const<3>), A1<5, A2<1, Ev<5>>>),
    (2, 14, Rank<2>, A1<1, A2<2, Ev<15>>>),
    (0, 16, (), A1<13, A2<0, Ev<13>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<8, A2<3, Ev<12>>>),
    (0, 10, (), A1<5, A2<2, Ev<0>>>),
    (2, 2, Rank<2>, A1<0, A2<4, Ev<13>>>),
    (7, 2, DynRank, A1<11, A2<0, Ev<15>>>),
    (2, 8, Rank<2>, A1<3, A2<0, Ev<0>>>),
    (2, 11, Rank<2>, A1<3, A2<0, Ev<3>>>),
    (1, 11, Rank<1>, A1<6, A2<4, Ev<11>>>),
    (0, 0, (), A1<5, A2<1, Ev<15>>>),
    (11, 3, (Const<2>, Const<3>), A1<6, A2<0, Ev<4>>>),
    (0, 11, (), A1<2, A2<2, Ev<4>>>),
    (11, 16, (Const<2>, Const<3>), A1<2, A2<0, Ev<15>>>),
    (1, 9, Rank<1>, A1<2, A2<4, Ev<12>>>),
    (11, 1, (Const<2>, Const<3>), A1<0, A2<0, Ev<8>>>),
    (1, 12, Rank<1>, A1<6, A2<1, Ev<6>>>),
    (7, 0, DynRank, A1<5, A2<0, Ev<10>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<11, A2<0, Ev<0>>>),
    (1, 13, Rank<1>, A1<0, A2<3, Ev<5>>>),
    (2, 15, Rank<2>, A1<12, A2<0, Ev<7>>>),
    (7, 3, DynRank, A1<3, A2<0, Ev<14>>>),
    (1, 10, Rank<1>, A1<1, A2<2, Ev<16>>>),
    (1, 19, DynRank, A1<5, A2<2, Ev<17>>>),
    (2, 13, Rank<2>, A1<2, A2<0, Ev<0>>>),
    (7, 18, DynRank, A1<7, A2<0, Ev<4>>>),
    (1, 2, Rank<1>, A1<11, A2<3, Ev<3>>>),
    (7, 12, DynRank, A1<4, A2<3, Ev<4>>>),
    (0, 5, (), A1<7, A2<4, Ev<5>>>),
    (11, 11, (Const<2>, Const<3>), A1<9, A2<4, Ev<0>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<9, A2<0, Ev<7>>>),
    (1, 14, Rank<1>, A1<8, A2<3, Ev<11>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<6>>>),
    (7, 6, DynRank, A1<13, A2<1, Ev<5>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<13, A2<0, Ev<1>>>),
    (3, 10, Rank<3>, A1<2, A2<0, Ev<9>>>),
    (1, 1, Rank<1>, A1<12, A2<3, Ev<15>>>),
    (1, 19, DynRank, A1<8, A2<2, Ev<5>>>),
    (2, 9, Rank<2>, A1<13, A2<1, Ev<11>>>),
    (1, 9, Rank<1>, A1<4, A2<4, Ev<9>>>),
    (3, 11, Rank<3>, A1<1, A2<3, Ev<7>>>),
    (0, 17, (), A1<12, A2<4, Ev<3>>>),
    (1, 21, DynRank, A1<11, A2<0, Ev<2>>>),
    (1, 6, Rank<1>, A1<10, A2<0, Ev<0>>>),
    (2, 7, Rank<2>, A1<9, A2<2, Ev<2>>>),
    (3, 9, Rank<3>, A1<13, A2<1, Ev<5>>>),
    (1, 2, Rank<1>, A1<8, A2<0, Ev<5>>>),
    (1, 16, Rank<1>, A1<0, A2<3, Ev<3>>>),
    (2, 22, DynRank, A1<3, A2<3, Ev<14>>>),
    (0, 16, (), A1<4, A2<3, Ev<11>>>),
    (2, 7, Rank<2>, A1<4, A2<1, Ev<14>>>),
    (0, 1, (), A1<3, A2<0, Ev<0>>>),
    (3, 14, Rank<3>, A1<1, A2<0, Ev<15>>>),
    (11, 24, DynRank, A1<9, A2<0, Ev<8>>>),
    (7, 17, DynRank, A1<9, A2<3, Ev<16>>>),
    (7, 0, DynRank, A1<3, A2<0, Ev<16>>>),
    (7, 0, DynRank, A1<8, A2<1, Ev<4>>>),
    (1, 17, Rank<1>, A1<0, A2<4, Ev<15>>>),
    (11, 15, (Const<2>, Const<3>), A1<13, A2<3, Ev<1>>>),
    (3, 16, Rank<3>, A1<4, A2<2, Ev<7>>>),
    (2, 1, Rank<2>, A1<3, A2<2, Ev<3>>>),
    (11, 1, (Const<2>, Const<3>), A1<5, A2<0, Ev<4>>>),
    (11, 16, (Const<2>, Const<3>), A1<3, A2<3, Ev<0>>>),
    (11, 25, DynRank, A1<2, A2<1, Ev<3>>>),
    (0, 8, (), A1<7, A2<0, Ev<5>>>),
    (7, 18, DynRank, A1<3, A2<2, Ev<1>>>),
    (2, 17, Rank<2>, A1<0, A2<4, Ev<14>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<3>>>),
    (3, 12, Rank<3>, A1<0, A2<2, Ev<8>>>),
    (1, 1, Rank<1>, A1<0, A2<1, Ev<5>>>),
    (0, 13, (), A1<5, A2<1, Ev<13>>>),
    (2, 16, Rank<2>, A1<12, A2<0, Ev<0>>>),
    (0, 6, (), A1<9, A2<1, Ev<8>>>),
    (1, 3, Rank<1>, A1<6, A2<3, Ev<5>>>),
    (11, 13, (Const<2>, Const<3>), A1<5, A2<1, Ev<8>>>),
    (1, 2, Rank<1>, A1<5, A2<3, Ev<6>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<12, A2<1, Ev<12>>>),
    (2, 4, Rank<2>, A1<12, A2<3, Ev<8>>>),
    (3, 15, Rank<3>, A1<10, A2<2, Ev<4>>>),
    (2, 6, Rank<2>, A1<1, A2<0, Ev<9>>>),
    (3, 1, Rank<3>, A1<4, A2<0, Ev<14>>>),
    (1, 5, Rank<1>, A1<13, A2<0, Ev<8>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<12, A2<1, Ev<10>>>),
    (2, 1, Rank<2>, A1<6, A2<0, Ev<9>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<11, A2<1, Ev<0>>>),
    (3, 12, Rank<3>, A1<0, A2<3, Ev<3>>>),
    (3, 4, Rank<3>, A1<0, A2<2, Ev<14>>>),
    (2, 11, Rank<2>, A1<0, A2<0, Ev<9>>>),
    (11, 14, (Const<2>, Const<3>), A1<10, A2<0, Ev<0>>>),
    (3, 9, Rank<3>, A1<8, A2<4, Ev<2>>>),
    (1, 4, Rank<1>, A1<9, A2<2, Ev<13>>>),
    (7, 18, DynRank, A1<9, A2<1, Ev<15>>>),
    (0, 2, (), A1<10, A2<0, Ev<17>>>),
    (2, 3, Rank<2>, A1<4, A2<1, Ev<12>>>),
    (0, 15, (), A1<11, A2<2, Ev<11>>>),
    (2, 16, Rank<2>, A1<13, A2<1, Ev<3>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<12, A2<4, Ev<0>>>),
    (3, 7, Rank<3>, A1<3, A2<2, Ev<16>>>),
    (3, 8, Rank<3>, A1<5, A2<0, Ev<8>>>),
    (1, 6, Rank<1>, A1<2, A2<1, Ev<0>>>),
    (1, 6, Rank<1>, A1<4, A2<0, Ev<15>>>),
    (0, 5, (), A1<11, A2<2, Ev<13>>>),
    (7, 11, DynRank, A1<13, A2<0, Ev<8>>>),
    (7, 1, DynRank, A1<12, A2<0, Ev<12>>>),
    (3, 17, Rank<3>, A1<11, A2<3, Ev<16>>>),
    (11, 8, (Const<2>, Const<3>), A1<9, A2<0, Ev<15>>>),
    (7, 0, DynRank, A1<13, A2<0, Ev<11>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<5, A2<3, Ev<0>>>),
    (1, 7, Rank<1>, A1<2, A2<0, Ev<9>>>),
    (2, 16, Rank<2>, A1<3, A2<0, Ev<1>>>),
    (2, 5, Rank<2>, A1<10, A2<0, Ev<0>>>),
    (3, 17, Rank<3>, A1<0, A2<4, Ev<6>>>),
    (0, 12, (), A1<10, A2<1, Ev<8>>>),
    (1, 2, Rank<1>, A1<13, A2<2, Ev<4>>>),
    (3, 15, Rank<3>, A1<11, A2<0, Ev<0>>>),
    (1, 4, Rank<1>, A1<10, A2<1, Ev<0>>>),
    (1, 4, Rank<1>, A1<2, A2<0, Ev<14>>>),
    (3, 10, Rank<3>, A1<7, A2<2, Ev<8>>>),
    (3, 4, Rank<3>, A1<5, A2<3, Ev<10>>>),
    (3, 9, Rank<3>, A1<1, A2<0, Ev<0>>>),
    (2, 6, Rank<2>, A1<5, A2<1, Ev<3>>>),
    (3, 3, Rank<3>, A1<9, A2<1, Ev<9>>>),
    (1, 10, Rank<1>, A1<12, A2<1, Ev<13>>>),
    (3, 6, Rank<3>, A1<7, A2<0, Ev<4>>>),
    (11, 3, (Const<2>, Const<3>), A1<1, A2<1, Ev<15>>>),
    (0, 1, (), A1<11, A2<3, Ev<3>>>),
    (0, 14, (), A1<4, A2<0, Ev<6>>>),
    (2, 7, Rank<2>, A1<11, A2<0, Ev<10>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<0, A2<3, Ev<3>>>),
    (0, 4, (), A1<0, A2<0, Ev<5>>>),
    (3, 0, Rank<3>, A1<9, A2<1, Ev<4>>>),
    (3, 6, Rank<3>, A1<9, A2<1, Ev<0>>>),
    (0, 6, (), A1<3, A2<2, Ev<5>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<0>>>),
    (1, 3, Rank<1>, A1<3, A2<0, Ev<8>>>),
    (1, 8, Rank<1>, A1<9, A2<3, Ev<14>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<6, A2<4, Ev<0>>>),
    (0, 2, (), A1<1, A2<4, Ev<6>>>),
    (1, 11, Rank<1>, A1<0, A2<1, Ev<12>>>),
    (3, 17, Rank<3>, A1<9, A2<0, Ev<12>>>),
    (3, 14, Rank<3>, A1<11, A2<0, Ev<9>>>),
    (0, 1, (), A1<0, A2<4, Ev<13>>>),
    (7, 13, DynRank, A1<3, A2<1, Ev<0>>>),
    (11, 4, (Const<2>, Const<3>), A1<1, A2<2, Ev<7>>>),
    (1, 14, Rank<1>, A1<0, A2<0, Ev<17>>>),
    (7, 16, DynRank, A1<5, A2<2, Ev<16>>>),
    (11, 24, DynRank, A1<10, A2<1, Ev<14>>>),
    (0, 13, (), A1<13, A2<2, Ev<0>>>),
    (11, 24, DynRank, A1<12, A2<2, Ev<6>>>),
    (11, 8, (Const<2>, Const<3>), A1<5, A2<1, Ev<5>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<7, A2<2, Ev<6>>>),
    (0, 0, (), A1<0, A2<3, Ev<3>>>),
    (3, 10, Rank<3>, A1<1, A2<2, Ev<3>>>),
    (2, 2, Rank<2>, A1<12, A2<0, Ev<5>>>),
    (7, 6, DynRank, A1<1, A2<3, Ev<11>>>),
    (3, 7, Rank<3>, A1<0, A2<0, Ev<0>>>),
    (7, 7, DynRank, A1<2, A2<0, Ev<6>>>),
    (11, 7, (Const<2>, Const<3>), A1<0, A2<0, Ev<16>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<0, A2<0, Ev<2>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<0, A2<2, Ev<1>>>),
    (7, 3, DynRank, A1<5, A2<3, Ev<5>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<13, A2<0, Ev<13>>>),
    (7, 0, DynRank, A1<7, A2<2, Ev<13>>>),
    (1, 21, DynRank, A1<13, A2<2, Ev<11>>>),
    (11, 3, (Const<2>, Const<3>), A1<3, A2<0, Ev<0>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<10>>>),
    (0, 7, (), A1<1, A2<0, Ev<7>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<6, A2<1, Ev<4>>>),
    (11, 10, (Const<2>, Const<3>), A1<4, A2<4, Ev<4>>>),
    (0, 6, (), A1<1, A2<3, Ev<16>>>),
    (7, 15, DynRank, A1<2, A2<0, Ev<7>>>),
    (7, 17, DynRank, A1<6, A2<4, Ev<14>>>),
    (0, 3, (), A1<12, A2<1, Ev<10>>>),
    (7, 15, DynRank, A1<13, A2<3, Ev<0>>>),
    (2, 7, Rank<2>, A1<7, A2<0, Ev<15>>>),
    (11, 10, (Const<2>, Const<3>), A1<10, A2<0, Ev<5>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<0, A2<1, Ev<5>>>),
    (0, 1, (), A1<7, A2<3, Ev<14>>>),
    (1, 6, Rank<1>, A1<11, A2<3, Ev<14>>>),
    (2, 14, Rank<2>, A1<5, A2<1, Ev<6>>>),
    (7, 1, DynRank, A1<0, A2<3, Ev<8>>>),
    (0, 4, (), A1<2, A2<2, Ev<17>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<12, A2<3, Ev<15>>>),
    (11, 6, (Const<2>, Const<3>), A1<0, A2<0, Ev<6>>>),
    (3, 15, Rank<3>, A1<4, A2<0, Ev<3>>>),
    (2, 17, Rank<2>, A1<8, A2<4, Ev<12>>>),
    (11, 3, (Const<2>, Const<3>), A1<13, A2<3, Ev<1>>>),
    (7, 17, DynRank, A1<1, A2<0, Ev<6>>>),
    (3, 9, Rank<3>, A1<0, A2<4, Ev<1>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<12, A2<2, Ev<13>>>),
    (0, 3, (), A1<2, A2<0, Ev<2>>>),
    (7, 10, DynRank, A1<8, A2<2, Ev<6>>>),
    (11, 23, DynRank, A1<1, A2<2, Ev<8>>>),
    (2, 22, DynRank, A1<12, A2<4, Ev<9>>>),
    (11, 12, (Const<2>, Const<3>), A1<0, A2<2, Ev<16>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<8, A2<4, Ev<5>>>),
    (7, 6, DynRank, A1<0, A2<2, Ev<10>>>),
    (1, 19, DynRank, A1<10, A2<0, Ev<7>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<0, A2<1, Ev<5>>>),
    (2, 6, Rank<2>, A1<10, A2<0, Ev<2>>>),
    (2, 5, Rank<2>, A1<3, A2<3, Ev<0>>>),
    (2, 4, Rank<2>, A1<8, A2<4, Ev<11>>>),
    (0, 15, (), A1<7, A2<3, Ev<1>>>),
    (11, 6, (Const<2>, Const<3>), A1<7, A2<3, Ev<0>>>),
    (7, 8, DynRank, A1<12, A2<3, Ev<2>>>),
    (7, 12, DynRank, A1<1, A2<0, Ev<15>>>),
    (3, 4, Rank<3>, A1<8, A2<0, Ev<5>>>),
    (11, 14, (Const<2>, Const<3>), A1<7, A2<1, Ev<14>>>),
    (11, 7, (Const<2>, Const<3>), A1<6, A2<0, Ev<8>>>),
    (1, 17, Rank<1>, A1<8, A2<4, Ev<12>>>),
    (3, 9, Rank<3>, A1<6, A2<0, Ev<12>>>),
    (11, 6, (Const<2>, Const<3>), A1<1, A2<0, Ev<7>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<11>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<0, A2<0, Ev<17>>>),
    (2, 9, Rank<2>, A1<8, A2<4, Ev<12>>>),
    (11, 16, (Const<2>, Const<3>), A1<1, A2<0, Ev<10>>>),
    (7, 17, DynRank, A1<13, A2<2, Ev<13>>>),
    (1, 19, DynRank, A1<1, A2<1, Ev<11>>>),
    (2, 5, Rank<2>, A1<0, A2<2, Ev<0>>>),
    (3, 16, Rank<3>, A1<1, A2<1, Ev<13>>>),
    (11, 12, (Const<2>, Const<3>), A1<3, A2<3, Ev<9>>>),
    (3, 4, Rank<3>, A1<12, A2<3, Ev<6>>>),
    (0, 5, (), A1<4, A2<1, Ev<17>>>),
    (7, 5, DynRank, A1<3, A2<3, Ev<16>>>),
    (7, 10, DynRank, A1<1, A2<1, Ev<13>>>),
    (7, 1, DynRank, A1<10, A2<1, Ev<5>>>),
    (11, 6, (Const<2>, Const<3>), A1<1, A2<1, Ev<16>>>),
    (7, 18, DynRank, A1<0, A2<0, Ev<16>>>),
    (1, 15, Rank<1>, A1<13, A2<3, Ev<5>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<15>>>),
    (2, 6, Rank<2>, A1<12, A2<0, Ev<16>>>),
    (7, 13, DynRank, A1<1, A2<2, Ev<6>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<1, A2<3, Ev<17>>>),
    (3, 2, Rank<3>, A1<2, A2<1, Ev<4>>>),
    (0, 3, (), A1<11, A2<4, Ev<4>>>),
    (0, 10, (), A1<3, A2<4, Ev<11>>>),
    (11, 15, (Const<2>, Const<3>), A1<10, A2<0, Ev<8>>>),
    (1, 1, Rank<1>, A1<11, A2<4, Ev<3>>>),
    (0, 3, (), A1<5, A2<0, Ev<8>>>),
    (1, 15, Rank<1>, A1<10, A2<0, Ev<0>>>),
    (7, 4, DynRank, A1<10, A2<0, Ev<5>>>),
    (11, 2, (Const<2>, Const<3>), A1<4, A2<2, Ev<3>>>),
    (3, 4, Rank<3>, A1<6, A2<2, Ev<12>>>),
    (0, 1, (), A1<2, A2<0, Ev<0>>>),
    (0, 8, (), A1<2, A2<0, Ev<9>>>),
    (1, 11, Rank<1>, A1<5, A2<3, Ev<10>>>),
    (1, 21, DynRank, A1<6, A2<0, Ev<17>>>),
    (7, 12, DynRank, A1<0, A2<0, Ev<16>>>),
    (3, 1, Rank<3>, A1<2, A2<4, Ev<12>>>),
    (3, 0, Rank<3>, A1<0, A2<2, Ev<7>>>),
    (1, 21, DynRank, A1<7, A2<2, Ev<15>>>),
    (0, 2, (), A1<13, A2<3, Ev<16>>>),
    (7, 15, DynRank, A1<12, A2<3, Ev<0>>>),
    (7, 11, DynRank, A1<6, A2<2, Ev<0>>>),
    (2, 6, Rank<2>, A1<2, A2<2, Ev<10>>>),
    (7, 10, DynRank, A1<10, A2<2, Ev<5>>>),
    (7, 9, DynRank, A1<0, A2<4, Ev<0>>>),
    (0, 17, (), A1<8, A2<4, Ev<12>>>),
    (11, 13, (Const<2>, Const<3>), A1<1, A2<0, Ev<10>>>),
    (11, 11, (Const<2>, Const<3>), A1<0, A2<1, Ev<9>>>),
    (1, 13, Rank<1>, A1<13, A2<2, Ev<15>>>),
    (3, 12, Rank<3>, A1<5, A2<2, Ev<0>>>),
    (1, 19, DynRank, A1<1, A2<0, Ev<0>>>),
    (2, 15, Rank<2>, A1<1, A2<0, Ev<11>>>),
    (7, 9, DynRank, A1<5, A2<0, Ev<3>>>),
    (11, 26, DynRank, A1<1, A2<2, Ev<0>>>),
    (7, 17, DynRank, A1<10, A2<1, Ev<9>>>),
    (1, 0, Rank<1>, A1<8, A2<0, Ev<16>>>),
    (7, 16, DynRank, A1<7, A2<3, Ev<11>>>),
    (0, 2, (), A1<6, A2<2, Ev<15>>>),
    (0, 12, (), A1<11, A2<2, Ev<0>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<1, A2<3, Ev<17>>>),
    (1, 2, Rank<1>, A1<1, A2<2, Ev<9>>>),
    (7, 7, DynRank, A1<3, A2<0, Ev<4>>>),
    (1, 0, Rank<1>, A1<8, A2<3, Ev<8>>>),
    (3, 5, Rank<3>, A1<13, A2<0, Ev<15>>>),
    (1, 6, Rank<1>, A1<0, A2<0, Ev<3>>>),
    (7, 13, DynRank, A1<11, A2<0, Ev<4>>>),
    (3, 17, Rank<3>, A1<1, A2<4, Ev<17>>>),
    (3, 12, Rank<3>, A1<7, A2<0, Ev<5>>>),
    (1, 6, Rank<1>, A1<3, A2<0, Ev<16>>>),
    (7, 9, DynRank, A1<0, A2<0, Ev<11>>>),
    (3, 5, Rank<3>, A1<0, A2<1, Ev<0>>>),
    (0, 1, (), A1<5, A2<0, Ev<1>>>),
    (1, 20, DynRank, A1<0, A2<0, Ev<16>>>),
    (7, 3, DynRank, A1<1, A2<0, Ev<7>>>),
    (0, 10, (), A1<7, A2<0, Ev<10>>>),
    (1, 11, Rank<1>, A1<10, A2<3, Ev<4>>>),
    (0, 17, (), A1<0, A2<1, Ev<2>>>),
    (11, 24, DynRank, A1<8, A2<4, Ev<0>>>),
    (7, 16, DynRank, A1<0, A2<0, Ev<10>>>),
    (7, 11, DynRank, A1<2, A2<3, Ev<10>>>),
    (3, 2, Rank<3>, A1<5, A2<0, Ev<2>>>),
    (11, 4, (Const<2>, Const<3>), A1<0, A2<4, Ev<0>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<3, A2<3, Ev<4>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<14>>>),
    (3, 3, Rank<3>, A1<6, A2<4, Ev<5>>>),
    (11, 2, (Const<2>, Const<3>), A1<9, A2<1, Ev<5>>>),
    (7, 7, DynRank, A1<1, A2<0, Ev<13>>>),
    (2, 12, Rank<2>, A1<12, A2<3, Ev<5>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<11, A2<1, Ev<10>>>),
    (2, 0, Rank<2>, A1<0, A2<4, Ev<3>>>),
    (1, 1, Rank<1>, A1<5, A2<0, Ev<6>>>),
    (11, 4, (Const<2>, Const<3>), A1<2, A2<0, Ev<1>>>),
    (2, 15, Rank<2>, A1<11, A2<3, Ev<13>>>),
    (2, 7, Rank<2>, A1<4, A2<2, Ev<0>>>),
    (1, 13, Rank<1>, A1<5, A2<1, Ev<4>>>),
    (1, 10, Rank<1>, A1<9, A2<0, Ev<0>>>),
    (2, 17, Rank<2>, A1<10, A2<1, Ev<5>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<8, A2<4, Ev<0>>>),
    (7, 17, DynRank, A1<1, A2<4, Ev<17>>>),
    (0, 0, (), A1<9, A2<4, Ev<11>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<4>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<13, A2<2, Ev<5>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<13, A2<0, Ev<17>>>),
    (11, 23, DynRank, A1<11, A2<0, Ev<5>>>),
    (0, 9, (), A1<9, A2<4, Ev<0>>>),
    (0, 4, (), A1<0, A2<2, Ev<0>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<0, A2<2, Ev<16>>>),
    (3, 7, Rank<3>, A1<4, A2<2, Ev<5>>>),
    (0, 2, (), A1<13, A2<0, Ev<0>>>),
    (11, 15, (Const<2>, Const<3>), A1<9, A2<0, Ev<15>>>),
    (2, 12, Rank<2>, A1<5, A2<0, Ev<4>>>),
    (3, 5, Rank<3>, A1<12, A2<0, Ev<8>>>),
    (2, 5, Rank<2>, A1<11, A2<1, Ev<11>>>),
    (11, 6, (Const<2>, Const<3>), A1<0, A2<0, Ev<0>>>),
    (11, 6, (Const<2>, Const<3>), A1<0, A2<0, Ev<5>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<7>>>),
    (1, 12, Rank<1>, A1<3, A2<4, Ev<17>>>),
    (7, 14, DynRank, A1<10, A2<0, Ev<17>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<11, A2<1, Ev<13>>>),
    (7, 9, DynRank, A1<8, A2<4, Ev<12>>>),
    (11, 5, (Const<2>, Const<3>), A1<2, A2<2, Ev<6>>>),
    (3, 1, Rank<3>, A1<3, A2<0, Ev<0>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<0>>>),
    (3, 7, Rank<3>, A1<10, A2<0, Ev<5>>>),
    (2, 13, Rank<2>, A1<8, A2<3, Ev<16>>>),
    (11, 24, DynRank, A1<9, A2<0, Ev<4>>>),
    (1, 13, Rank<1>, A1<7, A2<0, Ev<13>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<8>>>),
    (11, 14, (Const<2>, Const<3>), A1<13, A2<0, Ev<11>>>),
    (1, 14, Rank<1>, A1<2, A2<0, Ev<4>>>),
    (11, 8, (Const<2>, Const<3>), A1<13, A2<3, Ev<10>>>),
    (0, 7, (), A1<9, A2<3, Ev<16>>>),
    (7, 1, DynRank, A1<0, A2<0, Ev<3>>>),
    (2, 17, Rank<2>, A1<11, A2<3, Ev<6>>>),
    (1, 14, Rank<1>, A1<3, A2<4, Ev<8>>>),
    (2, 11, Rank<2>, A1<2, A2<2, Ev<1>>>),
    (7, 7, DynRank, A1<12, A2<1, Ev<17>>>),
    (1, 17, Rank<1>, A1<1, A2<2, Ev<10>>>),
    (1, 17, Rank<1>, A1<8, A2<4, Ev<5>>>),
    (3, 13, Rank<3>, A1<11, A2<4, Ev<16>>>),
    (2, 3, Rank<2>, A1<6, A2<4, Ev<17>>>),
    (3, 13, Rank<3>, A1<0, A2<2, Ev<1>>>),
    (7, 12, DynRank, A1<3, A2<4, Ev<0>>>),
    (0, 9, (), A1<13, A2<2, Ev<6>>>),
    (2, 22, DynRank, A1<10, A2<0, Ev<13>>>),
    (7, 3, DynRank, A1<6, A2<1, Ev<13>>>),
    (7, 11, DynRank, A1<1, A2<2, Ev<12>>>),
    (0, 4, (), A1<10, A2<1, Ev<3>>>),
    (2, 22, DynRank, A1<4, A2<0, Ev<15>>>),
    (2, 16, Rank<2>, A1<0, A2<0, Ev<0>>>),
    (7, 18, DynRank, A1<11, A2<4, Ev<8>>>),
    (2, 0, Rank<2>, A1<8, A2<2, Ev<8>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<11, A2<1, Ev<4>>>),
    (7, 15, DynRank, A1<0, A2<0, Ev<9>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<4, A2<4, Ev<9>>>),
    (2, 2, Rank<2>, A1<4, A2<0, Ev<0>>>),
    (7, 9, DynRank, A1<11, A2<4, Ev<5>>>),
    (3, 17, Rank<3>, A1<8, A2<4, Ev<12>>>),
    (3, 1, Rank<3>, A1<1, A2<2, Ev<11>>>),
    (3, 13, Rank<3>, A1<10, A2<1, Ev<11>>>),
    (0, 6, (), A1<6, A2<0, Ev<14>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<2, A2<2, Ev<13>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<3>>>),
    (7, 15, DynRank, A1<6, A2<3, Ev<15>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<9, A2<2, Ev<12>>>),
    (2, 15, Rank<2>, A1<1, A2<2, Ev<0>>>),
    (7, 3, DynRank, A1<8, A2<4, Ev<6>>>),
    (1, 4, Rank<1>, A1<5, A2<0, Ev<0>>>),
    (2, 5, Rank<2>, A1<7, A2<0, Ev<7>>>),
    (3, 14, Rank<3>, A1<8, A2<0, Ev<7>>>),
    (11, 9, (Const<2>, Const<3>), A1<1, A2<0, Ev<12>>>),
    (7, 15, DynRank, A1<1, A2<0, Ev<8>>>),
    (2, 3, Rank<2>, A1<1, A2<0, Ev<6>>>),
    (11, 14, (Const<2>, Const<3>), A1<0, A2<2, Ev<17>>>),
    (3, 2, Rank<3>, A1<13, A2<1, Ev<5>>>),
    (2, 15, Rank<2>, A1<9, A2<1, Ev<1>>>),
    (2, 8, Rank<2>, A1<12, A2<0, Ev<0>>>),
    (2, 13, Rank<2>, A1<6, A2<2, Ev<11>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<0, A2<2, Ev<16>>>),
    (11, 1, (Const<2>, Const<3>), A1<3, A2<3, Ev<2>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<2, A2<1, Ev<7>>>),
    (0, 15, (), A1<2, A2<0, Ev<1>>>),
    (2, 14, Rank<2>, A1<2, A2<0, Ev<14>>>),
    (11, 9, (Const<2>, Const<3>), A1<5, A2<0, Ev<6>>>),
    (3, 5, Rank<3>, A1<10, A2<3, Ev<7>>>),
    (2, 5, Rank<2>, A1<6, A2<4, Ev<5>>>),
    (11, 5, (Const<2>, Const<3>), A1<6, A2<0, Ev<3>>>),
    (2, 12, Rank<2>, A1<12, A2<0, Ev<8>>>),
    (0, 11, (), A1<1, A2<0, Ev<12>>>),
    (11, 13, (Const<2>, Const<3>), A1<9, A2<0, Ev<12>>>),
    (0, 0, (), A1<8, A2<2, Ev<5>>>),
    (7, 4, DynRank, A1<9, A2<0, Ev<7>>>),
    (7, 13, DynRank, A1<7, A2<3, Ev<11>>>),
    (0, 10, (), A1<1, A2<4, Ev<15>>>),
    (7, 5, DynRank, A1<4, A2<3, Ev<8>>>),
    (11, 16, (Const<2>, Const<3>), A1<13, A2<0, Ev<13>>>),
    (7, 18, DynRank, A1<13, A2<1, Ev<13>>>),
    (11, 25, DynRank, A1<12, A2<0, Ev<0>>>),
    (3, 16, Rank<3>, A1<0, A2<0, Ev<1>>>),
    (0, 12, (), A1<6, A2<0, Ev<2>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<8, A2<4, Ev<12>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<1>>>),
    (11, 13, (Const<2>, Const<3>), A1<0, A2<0, Ev<7>>>),
    (0, 0, (), A1<12, A2<0, Ev<0>>>),
    (2, 4, Rank<2>, A1<2, A2<2, Ev<15>>>),
    (1, 6, Rank<1>, A1<1, A2<0, Ev<4>>>),
    (7, 5, DynRank, A1<5, A2<0, Ev<0>>>),
    (7, 9, DynRank, A1<2, A2<4, Ev<1>>>),
    (11, 8, (Const<2>, Const<3>), A1<10, A2<3, Ev<4>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<12, A2<2, Ev<11>>>),
    (7, 9, DynRank, A1<12, A2<2, Ev<12>>>),
    (1, 11, Rank<1>, A1<9, A2<0, Ev<9>>>),
    (7, 10, DynRank, A1<11, A2<4, Ev<8>>>),
    (1, 16, Rank<1>, A1<9, A2<0, Ev<14>>>),
    (2, 3, Rank<2>, A1<5, A2<1, Ev<3>>>),
    (11, 1, (Const<2>, Const<3>), A1<7, A2<1, Ev<1>>>),
    (11, 7, (Const<2>, Const<3>), A1<4, A2<0, Ev<15>>>),
    (7, 14, DynRank, A1<3, A2<0, Ev<17>>>),
    (7, 16, DynRank, A1<12, A2<0, Ev<11>>>),
    (0, 15, (), A1<0, A2<1, Ev<7>>>),
    (11, 25, DynRank, A1<13, A2<0, Ev<16>>>),
    (2, 3, Rank<2>, A1<2, A2<3, Ev<16>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<1>>>),
    (2, 12, Rank<2>, A1<5, A2<0, Ev<2>>>),
    (11, 4, (Const<2>, Const<3>), A1<7, A2<0, Ev<17>>>),
    (3, 15, Rank<3>, A1<0, A2<0, Ev<13>>>),
    (11, 1, (Const<2>, Const<3>), A1<13, A2<2, Ev<7>>>),
    (3, 15, Rank<3>, A1<12, A2<2, Ev<5>>>),
    (2, 4, Rank<2>, A1<4, A2<4, Ev<0>>>),
    (1, 15, Rank<1>, A1<0, A2<0, Ev<5>>>),
    (7, 16, DynRank, A1<9, A2<0, Ev<10>>>),
    (11, 9, (Const<2>, Const<3>), A1<0, A2<2, Ev<3>>>),
    (11, 3, (Const<2>, Const<3>), A1<5, A2<2, Ev<0>>>),
    (3, 3, Rank<3>, A1<12, A2<4, Ev<10>>>),
    (11, 24, DynRank, A1<13, A2<3, Ev<5>>>),
    (7, 1, DynRank, A1<2, A2<0, Ev<0>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<6, A2<0, Ev<6>>>),
    (1, 14, Rank<1>, A1<6, A2<4, Ev<2>>>),
    (3, 7, Rank<3>, A1<0, A2<0, Ev<2>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<9>>>),
    (7, 7, DynRank, A1<11, A2<2, Ev<5>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<2, A2<0, Ev<5>>>),
    (11, 16, (Const<2>, Const<3>), A1<9, A2<3, Ev<17>>>),
    (7, 14, DynRank, A1<0, A2<4, Ev<14>>>),
    (11, 24, DynRank, A1<8, A2<4, Ev<12>>>),
    (7, 12, DynRank, A1<9, A2<3, Ev<7>>>),
    (11, 25, DynRank, A1<6, A2<4, Ev<9>>>),
    (11, 15, (Const<2>, Const<3>), A1<12, A2<1, Ev<9>>>),
    (1, 8, Rank<1>, A1<6, A2<2, Ev<16>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<10, A2<2, Ev<15>>>),
    (7, 5, DynRank, A1<2, A2<2, Ev<12>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<8, A2<0, Ev<1>>>),
    (11, 24, DynRank, A1<0, A2<0, Ev<12>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<4>>>),
    (1, 9, Rank<1>, A1<3, A2<3, Ev<0>>>),
    (0, 9, (), A1<8, A2<0, Ev<9>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<1, A2<1, Ev<5>>>),
    (1, 5, Rank<1>, A1<12, A2<3, Ev<11>>>),
    (1, 10, Rank<1>, A1<2, A2<0, Ev<5>>>),
    (3, 8, Rank<3>, A1<9, A2<0, Ev<0>>>),
    (3, 6, Rank<3>, A1<9, A2<3, Ev<9>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<6, A2<3, Ev<6>>>),
    (1, 20, DynRank, A1<0, A2<3, Ev<8>>>),
    (0, 11, (), A1<0, A2<4, Ev<16>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<1, A2<4, Ev<5>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<2, A2<3, Ev<2>>>),
    (1, 8, Rank<1>, A1<11, A2<1, Ev<2>>>),
    (11, 9, (Const<2>, Const<3>), A1<6, A2<4, Ev<8>>>),
    (2, 4, Rank<2>, A1<1, A2<0, Ev<13>>>),
    (2, 10, Rank<2>, A1<10, A2<0, Ev<17>>>),
    (0, 4, (), A1<13, A2<0, Ev<7>>>),
    (2, 15, Rank<2>, A1<0, A2<0, Ev<9>>>),
    (11, 12, (Const<2>, Const<3>), A1<2, A2<1, Ev<0>>>),
    (11, 26, DynRank, A1<8, A2<0, Ev<5>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<0, A2<0, Ev<0>>>),
    (1, 5, Rank<1>, A1<6, A2<4, Ev<5>>>),
    (7, 6, DynRank, A1<0, A2<3, Ev<2>>>),
    (0, 11, (), A1<11, A2<0, Ev<7>>>),
    (11, 25, DynRank, A1<10, A2<0, Ev<4>>>),
    (2, 14, Rank<2>, A1<11, A2<4, Ev<2>>>),
    (11, 2, (Const<2>, Const<3>), A1<0, A2<4, Ev<17>>>),
    (0, 9, (), A1<0, A2<0, Ev<2>>>),
    (3, 13, Rank<3>, A1<1, A2<4, Ev<12>>>),
    (3, 2, Rank<3>, A1<1, A2<0, Ev<8>>>),
    (11, 0, (Const<2>, Const<3>), A1<0, A2<2, Ev<7>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<9, A2<0, Ev<2>>>),
    (1, 10, Rank<1>, A1<4, A2<0, Ev<14>>>),
    (2, 2, Rank<2>, A1<7, A2<2, Ev<4>>>),
    (2, 16, Rank<2>, A1<2, A2<1, Ev<4>>>),
    (11, 10, (Const<2>, Const<3>), A1<8, A2<1, Ev<0>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<13>>>),
    (1, 1, Rank<1>, A1<9, A2<2, Ev<17>>>),
    (0, 0, (), A1<9, A2<0, Ev<7>>>),
    (3, 5, Rank<3>, A1<0, A2<4, Ev<5>>>),
    (11, 0, (Const<2>, Const<3>), A1<1, A2<3, Ev<10>>>),
    (1, 14, Rank<1>, A1<11, A2<1, Ev<5>>>),
    (3, 13, Rank<3>, A1<6, A2<0, Ev<0>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<5>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<3, A2<0, Ev<9>>>),
    (1, 2, Rank<1>, A1<6, A2<0, Ev<17>>>),
    (0, 16, (), A1<4, A2<1, Ev<10>>>),
    (3, 0, Rank<3>, A1<5, A2<1, Ev<8>>>),
    (2, 3, Rank<2>, A1<3, A2<0, Ev<7>>>),
    (7, 5, DynRank, A1<12, A2<2, Ev<15>>>),
    (0, 10, (), A1<5, A2<1, Ev<17>>>),
    (2, 2, Rank<2>, A1<0, A2<0, Ev<5>>>),
    (0, 9, (), A1<8, A2<4, Ev<6>>>),
    (2, 8, Rank<2>, A1<0, A2<0, Ev<7>>>),
    (3, 1, Rank<3>, A1<1, A2<3, Ev<10>>>),
    (1, 19, DynRank, A1<4, A2<0, Ev<10>>>),
    (1, 8, Rank<1>, A1<13, A2<0, Ev<10>>>),
    (11, 10, (Const<2>, Const<3>), A1<2, A2<3, Ev<5>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<8, A2<2, Ev<11>>>),
    (11, 16, (Const<2>, Const<3>), A1<4, A2<2, Ev<2>>>),
    (2, 7, Rank<2>, A1<1, A2<0, Ev<9>>>),
    (11, 23, DynRank, A1<7, A2<2, Ev<2>>>),
    (2, 13, Rank<2>, A1<7, A2<4, Ev<0>>>),
    (7, 10, DynRank, A1<1, A2<1, Ev<0>>>),
    (11, 14, (Const<2>, Const<3>), A1<10, A2<3, Ev<15>>>),
    (11, 8, (Const<2>, Const<3>), A1<4, A2<3, Ev<13>>>),
    (3, 7, Rank<3>, A1<5, A2<1, Ev<1>>>),
    (1, 16, Rank<1>, A1<5, A2<0, Ev<1>>>),
    (11, 6, (Const<2>, Const<3>), A1<3, A2<2, Ev<13>>>),
    (3, 10, Rank<3>, A1<8, A2<1, Ev<17>>>),
    (0, 13, (), A1<0, A2<0, Ev<2>>>),
    (0, 10, (), A1<8, A2<0, Ev<0>>>),
    (0, 4, (), A1<9, A2<4, Ev<6>>>),
    (1, 2, Rank<1>, A1<0, A2<4, Ev<16>>>),
    (0, 6, (), A1<12, A2<0, Ev<0>>>),
    (1, 2, Rank<1>, A1<10, A2<0, Ev<0>>>),
    (3, 14, Rank<3>, A1<10, A2<1, Ev<10>>>),
    (3, 11, Rank<3>, A1<9, A2<0, Ev<9>>>),
    (2, 11, Rank<2>, A1<6, A2<4, Ev<14>>>),
    (7, 10, DynRank, A1<9, A2<0, Ev<15>>>),
    (11, 11, (Const<2>, Const<3>), A1<1, A2<2, Ev<7>>>),
    (2, 10, Rank<2>, A1<4, A2<2, Ev<0>>>),
    (11, 13, (Const<2>, Const<3>), A1<3, A2<4, Ev<3>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<15>>>),
    (8, 8, (mdarray::Dyn, Const<3>), A1<12, A2<1, Ev<7>>>),
    (2, 22, DynRank, A1<13, A2<0, Ev<6>>>),
    (1, 4, Rank<1>, A1<1, A2<4, Ev<12>>>),
    (7, 11, DynRank, A1<11, A2<1, Ev<2>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<12, A2<0, Ev<2>>>),
    (1, 8, Rank<1>, A1<11, A2<0, Ev<6>>>),
    (0, 7, (), A1<13, A2<0, Ev<0>>>),
    (0, 0, (), A1<3, A2<0, Ev<12>>>),
    (2, 2, Rank<2>, A1<1, A2<0, Ev<7>>>),
    (7, 18, DynRank, A1<10, A2<0, Ev<6>>>),
    (7, 15, DynRank, A1<4, A2<0, Ev<0>>>),
    (1, 9, Rank<1>, A1<8, A2<4, Ev<5>>>),
    (2, 22, DynRank, A1<2, A2<2, Ev<0>>>),
    (2, 6, Rank<2>, A1<3, A2<0, Ev<17>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<10>>>),
    (11, 7, (Const<2>, Const<3>), A1<2, A2<2, Ev<10>>>),
    (3, 13, Rank<3>, A1<9, A2<0, Ev<16>>>),
    (3, 6, Rank<3>, A1<11, A2<0, Ev<6>>>),
    (7, 8, DynRank, A1<4, A2<1, Ev<10>>>),
    (11, 10, (Const<2>, Const<3>), A1<6, A2<0, Ev<15>>>),
    (1, 5, Rank<1>, A1<13, A2<0, Ev<7>>>),
    (1, 11, Rank<1>, A1<7, A2<0, Ev<7>>>),
    (11, 23, DynRank, A1<6, A2<0, Ev<17>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<16>>>),
    (2, 9, Rank<2>, A1<11, A2<0, Ev<0>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<0, A2<0, Ev<15>>>),
    (11, 9, (Const<2>, Const<3>), A1<3, A2<4, Ev<0>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<12, A2<0, Ev<6>>>),
    (7, 13, DynRank, A1<1, A2<0, Ev<1>>>),
    (1, 0, Rank<1>, A1<7, A2<2, Ev<10>>>),
    (0, 10, (), A1<13, A2<3, Ev<0>>>),
    (0, 10, (), A1<2, A2<3, Ev<8>>>),
    (11, 17, (Const<2>, Const<3>), A1<6, A2<0, Ev<11>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<10, A2<2, Ev<10>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<9, A2<4, Ev<12>>>),
    (2, 4, Rank<2>, A1<0, A2<0, Ev<5>>>),
    (7, 5, DynRank, A1<0, A2<4, Ev<0>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<2, A2<0, Ev<0>>>),
    (11, 12, (Const<2>, Const<3>), A1<8, A2<1, Ev<5>>>),
    (1, 20, DynRank, A1<1, A2<4, Ev<14>>>),
    (0, 11, (), A1<10, A2<0, Ev<6>>>),
    (11, 5, (Const<2>, Const<3>), A1<1, A2<3, Ev<11>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<10, A2<2, Ev<10>>>),
    (7, 16, DynRank, A1<11, A2<0, Ev<6>>>),
    (7, 14, DynRank, A1<9, A2<0, Ev<0>>>),
    (3, 13, Rank<3>, A1<1, A2<3, Ev<17>>>),
    (1, 5, Rank<1>, A1<7, A2<0, Ev<0>>>),
    (7, 12, DynRank, A1<0, A2<0, Ev<13>>>),
    (11, 4, (Const<2>, Const<3>), A1<6, A2<0, Ev<8>>>),
    (1, 3, Rank<1>, A1<0, A2<2, Ev<2>>>),
    (2, 8, Rank<2>, A1<1, A2<0, Ev<5>>>),
    (0, 15, (), A1<13, A2<0, Ev<13>>>),
    (0, 9, (), A1<6, A2<4, Ev<13>>>),
    (11, 0, (Const<2>, Const<3>), A1<1, A2<1, Ev<3>>>),
    (1, 16, Rank<1>, A1<1, A2<1, Ev<2>>>),
    (11, 16, (Const<2>, Const<3>), A1<0, A2<0, Ev<7>>>),
    (0, 17, (), A1<11, A2<4, Ev<14>>>),
    (3, 6, Rank<3>, A1<4, A2<0, Ev<13>>>),
    (7, 8, DynRank, A1<7, A2<3, Ev<5>>>),
    (0, 5, (), A1<11, A2<3, Ev<1>>>),
    (11, 4, (Const<2>, Const<3>), A1<13, A2<1, Ev<16>>>),
    (0, 13, (), A1<8, A2<0, Ev<11>>>),
    (7, 8, DynRank, A1<3, A2<1, Ev<14>>>),
    (11, 4, (Const<2>, Const<3>), A1<9, A2<4, Ev<5>>>),
    (0, 6, (), A1<13, A2<2, Ev<3>>>),
    (11, 14, (Const<2>, Const<3>), A1<0, A2<0, Ev<0>>>),
    (2, 8, Rank<2>, A1<10, A2<3, Ev<13>>>),
    (1, 5, Rank<1>, A1<3, A2<0, Ev<16>>>),
    (11, 26, DynRank, A1<7, A2<4, Ev<13>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<0>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<11, A2<4, Ev<1>>>),
    (2, 0, Rank<2>, A1<10, A2<1, Ev<2>>>),
    (11, 17, (Const<2>, Const<3>), A1<4, A2<4, Ev<9>>>),
    (3, 0, Rank<3>, A1<12, A2<2, Ev<8>>>),
    (1, 13, Rank<1>, A1<2, A2<0, Ev<7>>>),
    (1, 16, Rank<1>, A1<9, A2<2, Ev<0>>>),
    (3, 12, Rank<3>, A1<8, A2<0, Ev<10>>>),
    (3, 2, Rank<3>, A1<7, A2<4, Ev<0>>>),
    (0, 3, (), A1<6, A2<0, Ev<11>>>),
    (3, 8, Rank<3>, A1<0, A2<2, Ev<14>>>),
    (1, 0, Rank<1>, A1<2, A2<0, Ev<7>>>),
    (7, 11, DynRank, A1<7, A2<4, Ev<14>>>),
    (1, 17, Rank<1>, A1<5, A2<1, Ev<1>>>),
    (0, 12, (), A1<4, A2<0, Ev<4>>>),
    (1, 5, Rank<1>, A1<1, A2<0, Ev<3>>>),
    (7, 3, DynRank, A1<0, A2<0, Ev<4>>>),
    (1, 15, Rank<1>, A1<12, A2<3, Ev<10>>>),
    (11, 26, DynRank, A1<2, A2<1, Ev<8>>>),
    (3, 15, Rank<3>, A1<9, A2<1, Ev<5>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<11, A2<4, Ev<2>>>),
    (11, 3, (Const<2>, Const<3>), A1<0, A2<1, Ev<12>>>),
    (1, 12, Rank<1>, A1<12, A2<0, Ev<1>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<13, A2<3, Ev<9>>>),
    (8, 10, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<8>>>),
    (11, 3, (Const<2>, Const<3>), A1<1, A2<4, Ev<12>>>),
    (2, 8, Rank<2>, A1<6, A2<1, Ev<8>>>),
    (7, 1, DynRank, A1<1, A2<2, Ev<14>>>),
    (2, 12, Rank<2>, A1<1, A2<1, Ev<5>>>),
    (8, 15, (mdarray::Dyn, Const<3>), A1<7, A2<3, Ev<1>>>),
    (2, 17, Rank<2>, A1<12, A2<0, Ev<9>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<4, A2<2, Ev<17>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<0, A2<1, Ev<0>>>),
    (11, 23, DynRank, A1<5, A2<1, Ev<1>>>),
    (8, 1, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<5>>>),
    (3, 5, Rank<3>, A1<1, A2<0, Ev<3>>>),
    (11, 9, (Const<2>, Const<3>), A1<8, A2<4, Ev<12>>>),
    (3, 2, Rank<3>, A1<4, A2<2, Ev<16>>>),
    (2, 0, Rank<2>, A1<12, A2<0, Ev<5>>>),
    (11, 25, DynRank, A1<11, A2<1, Ev<0>>>),
    (11, 23, DynRank, A1<3, A2<0, Ev<11>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<6, A2<0, Ev<13>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<8, A2<4, Ev<12>>>),
    (11, 1, (Const<2>, Const<3>), A1<13, A2<0, Ev<13>>>),
    (11, 2, (Const<2>, Const<3>), A1<10, A2<0, Ev<11>>>),
    (2, 3, Rank<2>, A1<9, A2<2, Ev<0>>>),
    (11, 4, (Const<2>, Const<3>), A1<8, A2<3, Ev<11>>>),
    (1, 15, Rank<1>, A1<2, A2<0, Ev<15>>>),
    (2, 13, Rank<2>, A1<11, A2<0, Ev<5>>>),
    (0, 14, (), A1<6, A2<0, Ev<5>>>),
    (2, 7, Rank<2>, A1<0, A2<3, Ev<1>>>),
    (11, 15, (Const<2>, Const<3>), A1<5, A2<0, Ev<5>>>),
    (11, 2, (Const<2>, Const<3>), A1<8, A2<0, Ev<6>>>),
    (11, 6, (Const<2>, Const<3>), A1<10, A2<0, Ev<3>>>),
    (0, 11, (), A1<12, A2<4, Ev<5>>>),
    (0, 17, (), A1<7, A2<0, Ev<5>>>),
    (1, 0, Rank<1>, A1<1, A2<0, Ev<2>>>),
    (8, 4, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<11>>>),
    (2, 13, Rank<2>, A1<10, A2<0, Ev<13>>>),
    (2, 17, Rank<2>, A1<9, A2<4, Ev<14>>>),
    (1, 12, Rank<1>, A1<0, A2<4, Ev<0>>>),
    (11, 2, (Const<2>, Const<3>), A1<12, A2<0, Ev<10>>>),
    (2, 16, Rank<2>, A1<10, A2<0, Ev<0>>>),
    (0, 0, (), A1<6, A2<4, Ev<9>>>),
    (1, 5, Rank<1>, A1<1, A2<2, Ev<9>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<10, A2<0, Ev<10>>>),
    (11, 2, (Const<2>, Const<3>), A1<5, A2<1, Ev<9>>>),
    (0, 0, (), A1<1, A2<0, Ev<6>>>),
    (7, 13, DynRank, A1<12, A2<2, Ev<12>>>),
    (2, 11, Rank<2>, A1<11, A2<4, Ev<4>>>),
    (1, 9, Rank<1>, A1<7, A2<4, Ev<13>>>),
    (0, 8, (), A1<1, A2<0, Ev<0>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<5, A2<0, Ev<5>>>),
    (8, 16, (mdarray::Dyn, Const<3>), A1<1, A2<2, Ev<0>>>),
    (3, 17, Rank<3>, A1<7, A2<4, Ev<9>>>),
    (0, 12, (), A1<1, A2<0, Ev<5>>>),
    (1, 17, Rank<1>, A1<11, A2<0, Ev<16>>>),
    (3, 0, Rank<3>, A1<2, A2<0, Ev<12>>>),
    (1, 9, Rank<1>, A1<1, A2<0, Ev<5>>>),
    (0, 3, (), A1<1, A2<2, Ev<14>>>),
    (7, 14, DynRank, A1<0, A2<0, Ev<4>>>),
    (3, 11, Rank<3>, A1<2, A2<4, Ev<5>>>),
    (3, 0, Rank<3>, A1<12, A2<3, Ev<5>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<0, A2<3, Ev<8>>>),
    (11, 8, (Const<2>, Const<3>), A1<1, A2<0, Ev<3>>>),
    (7, 13, DynRank, A1<2, A2<1, Ev<5>>>),
    (11, 0, (Const<2>, Const<3>), A1<10, A2<0, Ev<0>>>),
    (11, 5, (Const<2>, Const<3>), A1<4, A2<4, Ev<2>>>),
    (2, 22, DynRank, A1<0, A2<0, Ev<14>>>),
    (11, 5, (Const<2>, Const<3>), A1<9, A2<1, Ev<1>>>),
    (0, 3, (), A1<0, A2<3, Ev<4>>>),
    (3, 16, Rank<3>, A1<3, A2<3, Ev<8>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<5, A2<3, Ev<1>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<9, A2<0, Ev<0>>>),
    (8, 6, (mdarray::Dyn, Const<3>), A1<13, A2<2, Ev<0>>>),
    (7, 0, DynRank, A1<0, A2<3, Ev<5>>>),
    (0, 10, (), A1<10, A2<0, Ev<13>>>),
    (8, 3, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<16>>>),
    (3, 10, Rank<3>, A1<12, A2<0, Ev<4>>>),
    (0, 4, (), A1<1, A2<0, Ev<15>>>),
    (8, 0, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<17>>>),
    (3, 12, Rank<3>, A1<13, A2<0, Ev<0>>>),
    (0, 6, (), A1<7, A2<0, Ev<7>>>),
    (11, 11, (Const<2>, Const<3>), A1<3, A2<2, Ev<17>>>),
    (7, 10, DynRank, A1<5, A2<0, Ev<0>>>),
    (7, 6, DynRank, A1<5, A2<1, Ev<14>>>),
    (7, 17, DynRank, A1<3, A2<1, Ev<4>>>),
    (2, 5, Rank<2>, A1<13, A2<0, Ev<8>>>),
    (1, 4, Rank<1>, A1<11, A2<2, Ev<15>>>),
    (1, 13, Rank<1>, A1<11, A2<4, Ev<12>>>),
    (11, 5, (Const<2>, Const<3>), A1<7, A2<0, Ev<4>>>),
    (1, 16, Rank<1>, A1<4, A2<0, Ev<9>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<1, A2<4, Ev<3>>>),
    (1, 12, Rank<1>, A1<1, A2<0, Ev<16>>>),
    (7, 1, DynRank, A1<1, A2<0, Ev<2>>>),
    (2, 11, Rank<2>, A1<10, A2<0, Ev<13>>>),
    (11, 11, (Const<2>, Const<3>), A1<10, A2<0, Ev<2>>>),
    (11, 6, (Const<2>, Const<3>), A1<11, A2<3, Ev<5>>>),
    (11, 7, (Const<2>, Const<3>), A1<9, A2<0, Ev<9>>>),
    (2, 12, Rank<2>, A1<3, A2<0, Ev<6>>>),
    (11, 6, (Const<2>, Const<3>), A1<10, A2<0, Ev<2>>>),
    (11, 13, (Const<2>, Const<3>), A1<7, A2<0, Ev<11>>>),
    (0, 2, (), A1<7, A2<0, Ev<12>>>),
    (3, 11, Rank<3>, A1<13, A2<1, Ev<4>>>),
    (11, 14, (Const<2>, Const<3>), A1<0, A2<4, Ev<3>>>),
    (11, 9, (Const<2>, Const<3>), A1<11, A2<2, Ev<14>>>),
    (0, 17, (), A1<13, A2<0, Ev<0>>>),
    (11, 12, (Const<2>, Const<3>), A1<5, A2<0, Ev<4>>>),
    (3, 13, Rank<3>, A1<5, A2<1, Ev<11>>>),
    (0, 4, (), A1<3, A2<0, Ev<13>>>),
    (3, 3, Rank<3>, A1<9, A2<0, Ev<14>>>),
    (0, 3, (), A1<3, A2<4, Ev<14>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<7, A2<0, Ev<4>>>),
    (7, 8, DynRank, A1<1, A2<0, Ev<4>>>),
    (3, 12, Rank<3>, A1<12, A2<0, Ev<6>>>),
    (7, 2, DynRank, A1<1, A2<4, Ev<11>>>),
    (11, 26, DynRank, A1<4, A2<2, Ev<17>>>),
    (11, 2, (Const<2>, Const<3>), A1<7, A2<0, Ev<0>>>),
    (0, 5, (), A1<0, A2<0, Ev<10>>>),
    (11, 11, (Const<2>, Const<3>), A1<13, A2<3, Ev<11>>>),
    (1, 20, DynRank, A1<9, A2<0, Ev<0>>>),
    (8, 14, (mdarray::Dyn, Const<3>), A1<2, A2<2, Ev<17>>>),
    (1, 4, Rank<1>, A1<0, A2<0, Ev<6>>>),
    (7, 8, DynRank, A1<10, A2<0, Ev<17>>>),
    (7, 14, DynRank, A1<8, A2<2, Ev<3>>>),
    (3, 1, Rank<3>, A1<8, A2<0, Ev<1>>>),
    (3, 0, Rank<3>, A1<3, A2<0, Ev<0>>>),
    (1, 21, DynRank, A1<6, A2<4, Ev<5>>>),
    (1, 0, Rank<1>, A1<13, A2<0, Ev<0>>>),
    (3, 1, Rank<3>, A1<0, A2<1, Ev<3>>>),
    (7, 14, DynRank, A1<1, A2<1, Ev<2>>>),
    (1, 19, DynRank, A1<0, A2<3, Ev<12>>>),
    (1, 8, Rank<1>, A1<1, A2<0, Ev<3>>>),
    (3, 17, Rank<3>, A1<0, A2<0, Ev<0>>>),
    (7, 15, DynRank, A1<10, A2<2, Ev<14>>>),
    (8, 11, (mdarray::Dyn, Const<3>), A1<3, A2<4, Ev<14>>>),
    (11, 0, (Const<2>, Const<3>), A1<3, A2<0, Ev<11>>>),
    (0, 0, (), A1<7, A2<0, Ev<16>>>),
    (2, 5, Rank<2>, A1<12, A2<3, Ev<10>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<13, A2<0, Ev<9>>>),
    (0, 3, (), A1<9, A2<2, Ev<0>>>),
    (2, 12, Rank<2>, A1<1, A2<0, Ev<0>>>),
    (0, 2, (), A1<10, A2<0, Ev<10>>>),
    (1, 9, Rank<1>, A1<6, A2<1, Ev<17>>>),
    (1, 0, Rank<1>, A1<1, A2<2, Ev<0>>>),
    (7, 0, DynRank, A1<11, A2<4, Ev<15>>>),
    (11, 15, (Const<2>, Const<3>), A1<3, A2<0, Ev<10>>>),
    (8, 17, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<5>>>),
    (2, 9, Rank<2>, A1<0, A2<0, Ev<16>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<3, A2<3, Ev<2>>>),
    (2, 6, Rank<2>, A1<13, A2<3, Ev<1>>>),
    (2, 4, Rank<2>, A1<5, A2<0, Ev<1>>>),
    (7, 13, DynRank, A1<6, A2<0, Ev<9>>>),
    (3, 10, Rank<3>, A1<4, A2<0, Ev<14>>>),
    (7, 9, DynRank, A1<4, A2<3, Ev<7>>>),
    (7, 4, DynRank, A1<12, A2<0, Ev<16>>>),
    (2, 3, Rank<2>, A1<10, A2<0, Ev<5>>>),
    (11, 16, (Const<2>, Const<3>), A1<7, A2<1, Ev<4>>>),
    (0, 9, (), A1<4, A2<0, Ev<16>>>),
    (1, 11, Rank<1>, A1<11, A2<0, Ev<8>>>),
    (0, 13, (), A1<12, A2<4, Ev<8>>>),
    (8, 13, (mdarray::Dyn, Const<3>), A1<4, A2<0, Ev<0>>>),
    (2, 9, Rank<2>, A1<9, A2<3, Ev<3>>>),
    (7, 7, DynRank, A1<13, A2<0, Ev<0>>>),
    (7, 3, DynRank, A1<1, A2<1, Ev<0>>>),
    (1, 20, DynRank, A1<3, A2<2, Ev<6>>>),
    (1, 5, Rank<1>, A1<8, A2<0, Ev<4>>>),
    (1, 12, Rank<1>, A1<7, A2<0, Ev<5>>>),
    (0, 11, (), A1<0, A2<0, Ev<12>>>),
    (7, 6, DynRank, A1<10, A2<0, Ev<7>>>),
    (3, 14, Rank<3>, A1<2, A2<0, Ev<5>>>),
    (11, 9, (Const<2>, Const<3>), A1<1, A2<4, Ev<7>>>),
    (3, 15, Rank<3>, A1<13, A2<2, Ev<16>>>),
    (11, 12, (Const<2>, Const<3>), A1<4, A2<4, Ev<0>>>),
    (2, 0, Rank<2>, A1<5, A2<0, Ev<5>>>),
    (11, 9, (Const<2>, Const<3>), A1<0, A2<4, Ev<5>>>),
    (8, 5, (mdarray::Dyn, Const<3>), A1<0, A2<3, Ev<15>>>),
    (2, 16, Rank<2>, A1<6, A2<0, Ev<15>>>),
    (2, 1, Rank<2>, A1<10, A2<3, Ev<1>>>),
    (11, 0, (Const<2>, Const<3>), A1<2, A2<0, Ev<2>>>),
    (8, 12, (mdarray::Dyn, Const<3>), A1<1, A2<0, Ev<7>>>),
    (2, 12, Rank<2>, A1<4, A2<1, Ev<15>>>),
    (3, 7, Rank<3>, A1<13, A2<0, Ev<11>>>),
    (2, 9, Rank<2>, A1<7, A2<4, Ev<5>>>),
    (7, 1, DynRank, A1<4, A2<3, Ev<0>>>),
    (2, 13, Rank<2>, A1<13, A2<2, Ev<0>>>),
    (2, 4, Rank<2>, A1<9, A2<0, Ev<4>>>),
    (7, 5, DynRank, A1<8, A2<0, Ev<10>>>),
    (3, 6, Rank<3>, A1<1, A2<0, Ev<0>>>),
    (2, 10, Rank<2>, A1<3, A2<0, Ev<8>>>),
    (11, 17, (Const<2>, Const<3>), A1<8, A2<4, Ev<12>>>),
    (1, 1, Rank<1>, A1<2, A2<0, Ev<12>>>),
    (11, 17, (Const<2>, Const<3>), A1<1, A2<0, Ev<4>>>),
    (7, 9, DynRank, A1<0, A2<4, Ev<13>>>),
    (11, 1, (Const<2>, Const<3>), A1<11, A2<4, Ev<13>>>),
    (1, 6, Rank<1>, A1<9, A2<1, Ev<1>>>),
    (7, 10, DynRank, A1<3, A2<4, Ev<6>>>),
    (0, 10, (), A1<9, A2<1, Ev<3>>>),
    (1, 7, Rank<1>, A1<3, A2<2, Ev<6>>>),
    (8, 2, (mdarray::Dyn, Const<3>), A1<1, A2<2, Ev<8>>>),
    (0, 14, (), A1<11, A2<0, Ev<14>>>),
    (0, 16, (), A1<1, A2<0, Ev<0>>>),
    (3, 11, Rank<3>, A1<0, A2<0, Ev<0>>>),
    (2, 15, Rank<2>, A1<0, A2<2, Ev<0>>>),
    (1, 15, Rank<1>, A1<10, A2<2, Ev<3>>>),
    (8, 9, (mdarray::Dyn, Const<3>), A1<11, A2<4, Ev<3>>>),
    (7, 0, DynRank, A1<12, A2<4, Ev<6>>>),
    (3, 13, Rank<3>, A1<13, A2<3, Ev<6>>>),
    (2, 0, Rank<2>, A1<13, A2<0, Ev<0>>>),
    (3, 3, Rank<3>, A1<1, A2<0, Ev<15>>>),
    (3, 7, Rank<3>, A1<11, A2<1, Ev<6>>>),
    (2, 9, Rank<2>, A1<12, A2<4, Ev<11>>>),
    (3, 0, Rank<3>, A1<13, A2<0, Ev<5>>>),
    (8, 7, (mdarray::Dyn, Const<3>), A1<11, A2<0, Ev<6>>>),
    (2, 14, Rank<2>, A1<10, A2<3, Ev<13>>>),
    (0, 8, (), A1<1, A2<0, Ev<1>>>),
    (1, 8, Rank<1>, A1<0, A2<0, Ev<7>>>),
}
