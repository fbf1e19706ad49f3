module fnvcoll

go 1.25
