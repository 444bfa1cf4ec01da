SPECIFICATION Spec
CONSTANTS K = 10
          Limit = 8
INVARIANTS ClausesHold BracketSound RootSound ErrorSound
PROPERTY Terminates
