#!/usr/bin/perl
# Unicode Character Database (perl's own copy) -> harness/P09/gcb_table.hpp
use strict; use warnings; use Unicode::UCD qw(charprop);
my @n = qw(Other CR LF Control Extend ZWJ Regional_Indicator Prepend SpacingMark L V T LV LVT);
my @re = map { qr/\p{GCB=$_}/ } qw(XX CR LF CN EX ZWJ RI PP SM L V T LV LVT);
my $ep = qr/\p{ExtPict}/;
my $age = qr/\p{In=13.0}/;
my ($start, $cur) = (0, undef);
print "// generated by tools/gen_gcb.pl from the Unicode ", Unicode::UCD::UnicodeVersion(), " database of perl $^V; do not edit\n";
print "enum Gcb : unsigned char { ", join(", ", map { "G_$_" } @n), ", G_ExtPict };\n";
print "struct GcbRange { char32_t first, last; Gcb g; bool in13; /* same class in Unicode 13 */ };\nstatic const GcbRange gcb_ranges[] = {\n";
for my $c (0 .. 0x110000) {
    my $v;
    if ($c < 0x110000) {
        my $ch = ($c >= 0xD800 && $c < 0xE000) ? undef : chr($c);
        my $i = 3; my $a = 1;
        if (defined $ch) { for my $k (0 .. $#re) { if ($ch =~ $re[$k]) { $i = $k; last } } $i = 14 if $i == 0 && $ch =~ $ep; $a = ($ch =~ $age) ? 1 : 0; }
        $i = 4 if $c == 0x1734; # Extend in Unicode 13, SpacingMark since 14
        $a = 1 if !$a && ($i == 0 || $i == 14 || ($i == 3 && !($c >= 0x13439 && $c <= 0x1343F))); # unassigned: same class in 13
        $v = ($i == 14 ? "G_ExtPict" : "G_$n[$i]") . ", " . ($a ? "true" : "false");
    }
    if (!defined $cur || !defined $v || $v ne $cur) {
        printf "    {0x%X, 0x%X, %s},\n", $start, $c - 1, $cur if defined $cur;
        ($start, $cur) = ($c, $v);
    }
}
print "};\n";
