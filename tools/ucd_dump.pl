use Unicode::UCD qw(prop_invmap);
for my $p ("GCB","ExtPict","EPres","ea","Age") {
  my ($l,$m,$f,$d)=prop_invmap($p);
  print "# $p $f $d\n";
  for my $i (0..$#$l) { print "$p $l->[$i] $m->[$i]\n"; }
}
