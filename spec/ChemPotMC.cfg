SPECIFICATION Spec
CONSTANTS K = 5
          Limit = 8
INVARIANTS ClausesHold BracketSound RootSound ErrorSound
PROPERTY Terminates
