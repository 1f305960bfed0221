# Prints engine/ucd.inc: the Unicode properties this framework's oracles use,
# taken from perl's own copy of the Unicode character database, as ranges
# {first, last, grapheme class, line break class (LB1 resolved), width, flags}.
# flags: 1 white space, 2 extended pictographic, 4 not in Unicode 14.0.
use strict;
use Unicode::UCD qw(prop_invmap);
my @p = qw(GCB lb ExtPict ea gc Age White_Space);
my %m; for my $p (@p) { my ($l, $v) = prop_invmap($p); $m{$p} = [$l, $v]; }
my %i = map { $_ => 0 } @p;
my @gcb = qw(Other CR LF Control Extend ZWJ Regional_Indicator Prepend SpacingMark L V T LV LVT);
my %g; @g{@gcb} = (0 .. $#gcb);
my %full = (CN => 'Control', EX => 'Extend', SM => 'SpacingMark', PP => 'Prepend', RI => 'Regional_Indicator');
my @lb = qw(AL BA BB B2 BK CB CL CM CP CR EB EM EX GL H2 H3 HY ID HL IN IS JL JT JV LF NL NS NU OP PO PR QU RI SP SY WJ ZW ZWJ CJ);
my %lb; @lb{@lb} = (0 .. $#lb);
my ($start, $cur) = (0, '');
for my $c (0 .. 0x110000) {
    my %v;
    my $s = '';
    if ($c < 0x110000) {
        for my $p (@p) {
            my ($l, $v) = @{$m{$p}};
            $i{$p}++ while $i{$p} + 1 < @$l && $l->[$i{$p} + 1] <= $c;
            $v{$p} = $v->[$i{$p}];
        }
        $v{GCB} =~ s/^ExtPict_//;
        $v{GCB} = 'Other' if $v{GCB} eq 'XX';
        $v{GCB} = $full{$v{GCB}} // $v{GCB};
        my $b = $v{lb};
        $b = 'AL' if $b eq 'AI' || $b eq 'SG' || $b eq 'XX';
        $b = ($v{gc} eq 'Mn' || $v{gc} eq 'Mc') ? 'CM' : 'AL' if $b eq 'SA';
        my $w = $v{ea} eq 'W' || $v{ea} eq 'F' ? 2 : $v{gc} eq 'Mn' || $v{gc} eq 'Me' ? 0 : 1;
        my $f = ($v{White_Space} eq 'Y' ? 1 : 0) + ($v{ExtPict} eq 'Y' ? 2 : 0)
              + ($v{Age} eq 'Unassigned' || $v{Age} eq 'NA' || $v{Age} > 14.0 ? 4 : 0);
        die "$c $v{GCB} $b" if !exists $g{$v{GCB}} || !exists $lb{$b};
        # Line break classes that Unicode 15.0 changed
        $f |= 4 if $c == 0x1DCD || $c == 0x1DFC || $c == 0x2057;
        $s = "$g{$v{GCB}},$lb{$b},$w,$f";
    }
    if ($s ne $cur) {
        printf "{0x%x,0x%x,%s},\n", $start, $c - 1, $cur if $cur ne '';
        ($start, $cur) = ($c, $s);
    }
}
