import subprocess
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).strip().split('\n')][1:]
m={
'b7edc5d':('T01','an instant before 1970 with a fraction of a second was read back as another instant'),
'a87d96e':('T01','a number or an instant out of range in a transaction panicked instead of being refused'),
'07aec2b':('T01','escaped newlines, tabs and returns in strings were stored as the letters n, t and r'),
'86700cf':('T01','two instants differing by less than a microsecond were distinct in a transaction and one when stored: transactions were refused with an SQL error, upserts missed'),
'fbdd3f9':('S01','altering an attribute to cardinality one was refused although no entity held several values'),
'78d34c6':('T01','[:db/retract e a wrong-value] on a cardinality-one attribute removed the current value from the search results and recorded nothing sensible'),
'65e1a0b':('S01','altering any aspect of a unique attribute silently dropped its :db/unique'),
'ce0c4c9':('S02','an ident moved between entities in one transaction was missing from the in-memory ident map'),
'827fd33':('T01','a transaction whose terms exactly fill a chunk of SQL bindings panicked'),
'a20fda9':('Q01','the nil UUID could be asserted but not read back (panic)'),
'89f26bb':('T02','a second identity value of an entity that upserted through another was dropped'),
'bb7a393':('T02','a tempid resolved in an earlier upsert generation and used as a value in a later one panicked'),
'b795191':('T01',':db/retract with a reversed attribute retracted the wrong way round'),
'ed43f99':('F01','a string repeated in a transaction of several chunks violated the search table\'s constraint'),
'16c7b16':('S01','alterations that leave an attribute incoherent were accepted'),
'bd18c59':('O01','pending notifications were lost when observers came or went before delivery'),
'4c11da2':('O01','a panicking observer silenced all observers and failed later commits'),
'0a94dc5':('D03','a refused step of a compound transaction left partial effects that were committed with the rest'),
'ec292e9':('T04','an identifier only ever used as a value was handed out again after a restart'),
'e38d84c':('Q01','ordering a query known to be empty was an error'),
'6323f66':('Q02','a read error while filling a cache panicked'),
'd1fbaaa':('C01','a value retracted in an open transaction was answered from the cache below'),
'87996d8':('C01','an attribute cached afresh in a transaction was mixed with what was cached before'),
'7c695c9':('C01','committing panicked while somebody else held on to the cache'),
'e3b7998':('C01','an attribute whose caching failed was taken as cached, and empty'),
'c552015':('C01','the cache followed what was asked for, not what changed'),
'7bb238c':('C01','lookups of cached attributes went wrong for some cardinalities'),
'2415ac1':('L01','searchable strings in the transaction log read as row numbers'),
'2f62d7b':('C01','queries over a cached cardinality-many attribute found nothing'),
'5a9c0d1':('D01','acknowledged commits were lost after a crash when uncommitted pages had spilled to the log and a savepoint was rolled back'),
'a54beb8':('Q02','a read error while reading rows panicked'),
'fb77ac9':('R01','a rollback that failed for lack of memory left the store unusable'),
'a4e9d1e':('D03','a transaction whose failed step could not be undone could still be committed'),
'829e382':('R01','a read error while dropping :db/unique panicked'),
'e21178f':('Q01','a negative number in ground was taken for an impossible entity, and the query failed'),
'8a36cef':('R01','reading in a transaction that had been lost answered from the state before it'),
'dd3b56b':('D01','an acknowledged commit was undone by a power failure when switching to WAL mode had failed silently'),
'8ce6c1c':('Y01','fast-forwarding to a remote transaction freed entids which were in use'),
'5b9e329':('Y01','entities known only by reference were missing from the partitions of uploaded transactions'),
'f342d88':('Y03','rewinding left facts attributed to a transaction which was not kept'),
'1d6e9c6':('Y03','rewinding several transactions lost track of the schema'),
'984452a':('Y02','a client whose upload went through, but which did not get to know, merged with its own transactions: everything was duplicated'),
'650c2a1':('Y01','a fact referring to a transaction made the receivers of an uploaded transaction refuse it'),
'b1f1edd':('Y03','a merge moved transactions set aside by an earlier merge, if they had the same ids, to the new timeline'),
'4210816':('D03','rolling back to a savepoint put back what was on disk, but not the schema, the ids, the caches and what observers were to be told'),
'9582702':('C01','after a merge, cached attributes held what the merge had rewound'),
'544ece7':('I01','a store opened while another connection committed mixed the schema of one state with the identifiers of another'),
'6917182':('I01','opening a store failed when another connection created it meanwhile'),
'828e266':('V01',':db/noHistory was recorded but not part of the schema, so that ensuring a vocabulary which uses it a second time was refused as a conflict'),
'4530816':('V01','a vocabulary upgrade which failed half way, or one of several ensured together, left its first half in the transaction'),
'4e801df':('Q01','an or whose arms bind a variable to different types could not be projected'),
'dc516f9':('Q01','an aggregate over no rows grouped by an input was an error'),
'2a8ec72':('Q01','binding the value of a fulltext match panicked'),
'3b2b200':('Q01','aggregates of a known value were not aggregated'),
'43ca96e':('Q01','an arm of an or that cannot have the type required was an error'),
'662176f':('Q01','a predicate after a pattern that cannot match was an error'),
'83c399a':('Q01','a sum over no rows was an error'),
'2fe05d7':('C01','a not whose clauses the cache showed to hold was ignored'),
'b2eb37d':('Q01','what [(type ?v :db.type/x)] asks for was not checked if a predicate implied it'),
'55297a8':('Q01','an or over a variable whose type is asked for was an SQL error'),
'4e07a16':('Q01','the same attribute was found once per entity with the value asked for'),
'0848574':('Y01','a first sync with local changes against a remote which holds only the bootstrap was refused'),
'e5ee768':('Q03','a query naming a source, or with a big integer, panicked'),
'49d8078':('Q03','a query given fewer inputs than it has variables panicked'),
'074555b':('Q03','an or none of whose arms could match, for an input which is no entity, panicked'),
'ff57a04':('Q03','pulling what is no reference panicked, or pulled the entity of that number'),
}
out=['# Findings of the checks on the unchanged tree.',
'# "fixed:" lines record defects repaired in /repo; they suppress nothing.',
'# "known: property=ID tag=TAG match=TEXT :: what fails" lines record defects which are not repaired; a violation',
'# of that property with that tag whose description contains TEXT is reported as a KNOWN-FINDING.']
for h,s in log:
    if not s.startswith('fix:'): print('??',h,s); continue
    k=[x for x in m if x==h[:7]]
    if not k: print('missing',h,s); continue
    p,t=m[k[0]]
    out.append(f'fixed: property={p} {h} {t}')
out.append('known: property=Y03 tag=sync:ids match=after Merge :: after a merge, references which local transactions made to entities of earlier local transactions keep those entities\' old ids, which the partition map then counts as free (syncer.rs merge: "TODO we need to do the same rewriting for part.v if it is a Ref"; the test test_entity_merge_non_unique_entity_conflict fixes which ids a merge hands out); reopening the store allocates beyond them')
out.append('known: property=Q01 tag=query:types match=[:find :: where the attribute is a variable or a placeholder, values are joined and compared as they are stored and not as what they are: entity 1, the number 1 and true are taken for the same, as are the row numbers of searchable strings (the tests test_project_aggregates, test_numeric_less_than_unknown_attribute and test_unknown_attribute_integer_value fix the SQL, which cannot tell them apart)')
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
