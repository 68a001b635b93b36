"""Definitions for `#[derive(Parse)]` and `#[derive(ToTokens)]`."""
from pt import Def, Ty

P2 = Ty("P2", "Num Str")
EN = Ty("En", dict(A="^Num Num", B="^Str", C="Id ="))
FK = Ty("Fk", dict(A="Num Num", B="Num Str"))
STRUCTS = dict(
    unit=Def(Ty("S", "-")),
    pair=Def(Ty("S", "Num Str")),
    named=Def(Ty("S", "n: Id = Num")),
    puncts=Def(Ty("S", "Id :: Id => Num")),
    kws=Def(Ty("S", "n: fn Id ?; ")),
    group=Def(Ty("S", "n: Id ( Num )Str")),
    open=Def(Ty("S", "Id [ Num Num")),
    brace=Def(Ty("S", "{ Id ?, }Num", style=1)),
    two=Def(Ty("S", "( Id )[ Num ]Str", style=1)),
    two2=Def(Ty("S", "n: ( Id ){ Num }?Str", style=2)),
    nest=Def(Ty("S", "( Id [ Num ]Str )Id")),
    nest2=Def(Ty("S", "( Id [ Num ])Str", style=1)),
    nest3=Def(Ty("S", "[ { Num")),
    empty_g=Def(Ty("S", "( )Num")),
    mac=Def(Ty("S", "n: Id m( Num )Str")),
    mac2=Def(Ty("S", "m{ ?Num }m[ Str", style=1)),
    any=Def(Ty("S", "n: Any = Any")),
    id=Def(Ty("S", "Id ?Id Id")),
    opt=Def(Ty("S", "?+ Num ?Str")),
    term=Def(Ty("S", "n: Num *Id")),
    termg=Def(Ty("S", "Id ( *Any )?;", style=2)),
    split=Def(Ty("S", "( *Any )*Any", style=3)),
    term2=Def(Ty("S", "( *Id )[ *Num")),
    user=Def(P2, Ty("S", "n: Id ( @P2 )@P2")),
    uenum=Def(EN, Ty("S", "n: @En ; ?Num")),
    generic=Def(Ty("S", "n: T , T", generics="<T: syn::parse::Parse + quote::ToTokens>", inst=dict(T="Id"))),
    generic2=Def(Ty("S", "( T )U", generics="<T, U>", inst=dict(T="Num", U="?Str"), where="where T: syn::parse::Parse + quote::ToTokens, U: syn::parse::Parse + quote::ToTokens")),
    scope=Def(Ty("S", "n: Any ( Num )m[ *Any ]?Id"), scope=True),
    mrules=Def(Ty("S", "n: Any ( ?Num )m[ *Id ]?,"), macro=True),
)
ENUMS = dict(
    fork=Def(Ty("S", dict(A="Num Num", B="Str", C="Num"))),
    prefix=Def(Ty("S", dict(A="Num", B="Num Num", C="Id"))),
    peek=Def(Ty("S", dict(A="^Num Num", B="Str"))),
    commit=Def(Ty("S", dict(A="^Num Str", B="Num", C="Id Id"))),
    peek3=Def(Ty("S", dict(A="^Num ^Num ^Num", B="^Num ^Num Str", C="^Num Str"))),
    after=Def(Ty("S", dict(A="n: ^{ Num Id ^}Num", B="^{ Num", C="Num"), style=1)),
    any=Def(Ty("S", dict(A="^Any Num", B="^Str Any"))),
    split=Def(Ty("S", dict(A="n: ^Any ^Num Id", B="*Any"), style=3)),
    pk2=Def(Ty("S", dict(A="^Num ^Any Num", B="^Num ^Num ^Any", C="n: ^Num ^Str ^Str", D="^Num ^, ^Id"))),
    pk3=Def(Ty("S", dict(A="^Any ^= ^fn", B="n: ^fn ^=> Num", C="^Str ^Id ^=>"))),
    pk4=Def(Ty("S", dict(A="^Num ^( Num", B="^Num ^[ Num ]^Id", C="n: ^[ Num ]^Str ^Num"))),
    pk5=Def(Ty("S", dict(A="^= ^= ^{ ", B="^= ^Num ^[ ", C="^= ^{ Num", D="^= ^fn ^( "))),
    id=Def(Ty("S", dict(A="^Id Num", B="^Any Str", C="Id"))),
    mid=Def(Ty("S", dict(A="^Id = Num", B="Id Num", C="n: ^Num Num"))),
    units=Def(Ty("S", dict(A="^Num", B="-"))),
    unit1=Def(Ty("S", dict(A="Num Num", B="-", C="Str"))),
    group=Def(Ty("S", dict(A="( Num )Num", B="( Str )Str", C="[ Num"))),
    group2=Def(Ty("S", dict(A="n: ^( ^)[ Num", B="n: ^( Num")), ),
    toks=Def(Ty("S", dict(A="^=> Num", B="^= Num", C="^:: Id"))),
    kws=Def(Ty("S", dict(A="^fn Id", B="^pub ?= Num", C="^Id"))),
    nested=Def(FK, Ty("S", dict(A="@Fk ;", B="n: @Fk =", C="Num"))),
    nested2=Def(EN, Ty("S", dict(A="^Num @En", B="@En"))),
    last=Def(Ty("S", dict(A="^Num ^= Num", B="^Num Str", C="?Id Num"))),
    all_peek=Def(Ty("S", dict(A="^Num", B="^Str", C="^Id"))),
    opt=Def(Ty("S", dict(A="?Num Str", B="^Num ?Id"))),
    term=Def(Ty("S", dict(A="^Num *Id", B="( *Any )Num", C="( Num"))),
    one=Def(Ty("S", dict(A="n: Id Num"))),
    open=Def(Ty("S", dict(A="( Num Num", B="( Num", C="Id"))),
    scope=Def(Ty("S", dict(A="^Any ^Num Id", B="( Num )Str", C="*Any", D="-")), scope=True),
    mrules=Def(Ty("S", dict(A="n: ^Any ^= Num", B="n: m( ?Num )*Id", C="n: ^, Id")), macro=True),
)
