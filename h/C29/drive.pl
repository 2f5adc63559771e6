#!/usr/bin/perl
# One JSON request per line: files to read in order, tags to unwrap; one JSON answer per line.
use strict;
use warnings;
use JSON::PP;
use PsiTag;
use NewMake;
my $js = JSON::PP->new->canonical;
my ($req, $errFile) = @ARGV;
open(my $in, "<", $req) or die;
open(STDERR, ">", $errFile) or die;
STDERR->autoflush(1);
while (my $l = <$in>) {
	my $q = $js->decode($l);
	my %tags;
	my %out = (un => {}, unerr => {});
	my $w = "";
	local $SIG{__WARN__} = sub { $w .= $_[0]; };
	my $pos = -s $errFile;
	foreach my $f (@{$q->{"files"}}) {
		eval { PsiTag::main(\%tags, $f); 1 } or do { $out{"err"} = "$@" || "died"; last; };
	}
	if (!defined($out{"err"})) {
		$out{"tags"} = { map { $_ => $tags{$_}->{"content"} } keys %tags };
		foreach my $t (@{$q->{"unwrap"}}) {
			next unless defined($tags{$t});
			my $before = $js->encode(\%tags);
			eval { $out{"un"}{$t} = PsiTag::unWrap(\%tags, $tags{$t}->{"content"}); 1 } or $out{"unerr"}{$t} = "$@" || "died";
			$out{"changed"} = $t if ($before ne $js->encode(\%tags));
		}
	}
	foreach my $fl (@{$q->{"flavors"} || []}) {
		eval { $out{"fl"}{$fl} = NewMake::getConfigContent($q->{"files"}, $fl); 1 } or $out{"flerr"}{$fl} = "$@" || "died";
	}
	my $said = "";
	if (-s $errFile > $pos) {
		open(my $e, "<", $errFile);
		seek($e, $pos, 0);
		local $/;
		$said = <$e>;
	}
	$out{"said"} = $said;
	$out{"warn"} = $w;
	print $js->encode(\%out), "\n";
}
