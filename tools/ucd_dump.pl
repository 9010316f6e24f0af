use strict; use Unicode::UCD qw(prop_invlist prop_aliases prop_value_aliases prop_invmap);
use JSON::PP;
my %o;
sub age14 { }
my @bin=qw(AHex Alpha Bidi_C Bidi_M Cased CI Dash Dep DI Dia Emoji EComp EMod EBase EPres Ext ExtPict Gr_Base Gr_Ext Hex IDC Ideo IDS IDSB IDST Join_C LOE Lower Math NChar Pat_Syn Pat_WS PCM QMark Radical RI SD STerm Term UIdeo Upper VS WSpace XIDC XIDS CE Comp_Ex ASCII Assigned);
for my $b (@bin) { my @l=prop_invlist($b); $o{bin}{lc $b}=[map {0+$_} @l]; }
for my $g (qw(C Cc Cf Cn Co Cs L LC Ll Lm Lo Lt Lu M Mc Me Mn N Nd Nl No P Pc Pd Pe Pf Pi Po Ps S Sc Sk Sm So Z Zl Zp Zs)) { $o{gc}{lc $g}=[map {0+$_} prop_invlist("gc=$g")]; }
use Unicode::UCD qw(prop_values);
for my $p (qw(sc scx age blk)) { for my $v (prop_values($p)) { my @a=prop_value_aliases($p,$v); $o{$p}{lc $a[0]}={names=>[map {lc} @a], list=>[map {0+$_} prop_invlist("$p=$v")]}; } }
print JSON::PP->new->canonical->encode(\%o);
